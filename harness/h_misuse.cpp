// Checked misuse: each scenario runs in a child process after a random valid history and
// must end in a null-page trap or a failed assertion, never in a normal return.
#include "pool.hpp"
using namespace vh;
typedef VH_ALLOC A;

template <class C> static void build(Chooser &ch, C &c, int &n, int lo) {
    n = 0; int ops = (int)ch.choose(40);
    while (ops-- > 0) { if (ch.choose(3) || n == 0) { c.push_back(Val<typename C::ValueType>::make(n + 1)); n++; } else { c.pop_back(); n--; } }
    while (n < lo) { c.push_back(Val<typename C::ValueType>::make(n + 1)); n++; }
}
// the container is destroyed only if the misuse is survived, and then nobody looks at it any more
#define STOP(key, ...) do { op(key); removal(); expect_stop(key, [&]() { __VA_ARGS__; }); } while (0)
template <class T> static void vec(Chooser &ch) {
    typedef dstruct::Vector<T, A> V; V v; int n = 0; build(ch, v, n, 0); op("history", n); const V &cv = v; volatile int sink = 0;
    int over = n + (int)ch.choose(ch.choose(2) ? 3 : 1000), under = -n - 1 - (int)ch.choose(ch.choose(2) ? 3 : 1000);
    switch (ch.choose(4)) {
    case 0: STOP("vector index past the end", sink = Val<T>::key(v[over])); STOP("const vector index past the end", sink = Val<T>::key(cv[over])); break;
    case 1: STOP("vector index before the first", sink = Val<T>::key(v[under])); STOP("const vector index before the first", sink = Val<T>::key(cv[under])); break;
    case 2: while (n) { v.pop_back(); n--; } STOP("pop of an empty vector", if (ch.choose(2)) v.pop(); else v.pop_back()); STOP("back of an empty vector", sink = Val<T>::key(cv.back())); break;
    case 3: { T e = Val<T>::make(1); v.clear(); STOP("vector of no elements", V x(0, e)); STOP("pop of a cleared vector", v.pop_back()); STOP("index of a cleared vector", sink = Val<T>::key(v[0])); break; }
    }
    (void)sink;
}
static void str(Chooser &ch) {
    Str s; int n = (int)ch.choose(40); for (int i = 0; i < n; i++) s.push_back((char)('a' + i % 26)); op("history", n); const Str &cs = s; volatile int sink = 0;
    int over = n + 1 + (int)ch.choose(ch.choose(2) ? 3 : 1000), under = -n - 2 - (int)ch.choose(100);   // index n is the terminator
    STOP("string index past the terminator", sink = s[over]); STOP("const string index past the terminator", sink = cs[over]); STOP("string index before the first", sink = s[under]);
    (void)sink;
}
template <class L> static void list_common(Chooser &ch, L &l) {
    typedef typename L::ValueType T; int n = (int)ch.choose(10); for (int i = 0; i < n; i++) { if (ch.choose(2)) l.push_back(Val<T>::make(i)); else l.push_front(Val<T>::make(i)); }
    op("history", n); if (ch.choose(3) == 0) l.clear(); else while (n--) l.pop_front();
    volatile int sink = 0;
    STOP("pop of an empty list", l.pop()); STOP("pop_front of an empty list", l.pop_front()); STOP("back of an empty list", sink = Val<T>::key(l.back()));
    l.push_back(Val<T>::make(3)); l.pop_front(); STOP("second pop of a list of one", l.pop_front());
    (void)sink;
}
template <class T> static void slist(Chooser &ch) { typedef dstruct::SinglyLinkedList<T, A> L; L l; list_common(ch, l); STOP("removing the last of an empty list", l._pop_back()); }
template <class T> static void dlist(Chooser &ch) { typedef dstruct::DoublyLinkedList<T, A> L; L l; list_common(ch, l); STOP("pop_back of an empty list", l.pop_back()); }
template <class T> static void heap(Chooser &ch) {
    typedef dstruct::Heap<T, dstruct::less<T>, A> H; H h; int n = (int)ch.choose(12); for (int i = 0; i < n; i++) h.push(Val<T>::make((int)ch.choose(50))); op("history", n);
    volatile int sink = 0;
    STOP("heap index past the end", sink = Val<T>::key(h[n + 1 + (int)ch.choose(20)]));
    while (n--) h.pop();
    STOP("top of an empty heap", sink = Val<T>::key(h.top())); STOP("pop of an empty heap", h.pop()); (void)sink;
}
static void stacks(Chooser &ch) {
    dstruct::Stack<int, A> s; dstruct::MinStack<int, A> m; dstruct::MaxStack<int, A> x; int n = (int)ch.choose(20);
    for (int i = 0; i < n; i++) { int v = (int)ch.choose(9); s.push(v); m.push(v); x.push(v); } op("history", n); while (n--) { s.pop(); m.pop(); x.pop(); }
    volatile int sink = 0;
    STOP("pop of an empty stack", s.pop()); STOP("top of an empty stack", sink = s.top());
    STOP("pop of an empty min stack", m.pop()); STOP("top of an empty min stack", sink = m.top()); STOP("pop of an empty max stack", x.pop()); STOP("top of an empty max stack", sink = x.top());
    (void)sink;
}
static void uf(Chooser &ch) {
    int n = 1 + (int)ch.choose(20); dstruct::DisjointSet<A> u(n); for (int i = 0; i < n; i++) u.connect((int)ch.choose(n), (int)ch.choose(n)); op("history", n);
    int bad = n + (int)ch.choose(ch.choose(2) ? 2 : 1000), ok = (int)ch.choose(n); volatile int sink = 0;
    STOP("find of an element outside", sink = u.find(bad)); STOP("connected with an element outside", sink = u.connected(ok, bad)); STOP("connect of an element outside", u.connect(bad, ok));
    STOP("disjoint set of no elements", dstruct::DisjointSet<A> z(0)); (void)sink;
}
static void map(Chooser &ch) {
    typedef dstruct::Map<int, int, dstruct::less<int>, dstruct::AVLTree<dstruct::KeyValue<const int, int>, dstruct::KVCMPKey<dstruct::KeyValue<const int, int>, dstruct::less<int> >, A> > M;
    M m; Vec<int> has(64, 0); int n = (int)ch.choose(60);
    for (int i = 0; i < n; i++) { int k = (int)ch.choose(64); if (ch.choose(3)) { m[k] = k; has[k] = 1; } else { m.pop(k); has[k] = 0; } }
    op("history", n); const M &c = m; int k = (int)ch.choose(64), p = (int)ch.choose(64); volatile int sink = 0;
    while (has[k]) k = (k + 1) % 65 == 64 ? 64 : k + 1, has.push_back(0);
    STOP("index of a const map with an absent key", sink = c[k]); 
    m[p] = 1; typename M::KeyValueType kv(p, 3); STOP("push of a present key into a map", m.push(kv)); (void)sink;
}
static void avl(Chooser &ch) {
    dstruct::AVLTree<int, dstruct::less<int>, A> t; Vec<int> in; int n = 1 + (int)ch.choose(40);
    for (int i = 0; i < n; i++) { int k = (int)ch.choose(1000); bool d = false; for (size_t q = 0; q < in.size(); q++) d = d || in[q] == k; if (!d) { t.push(k); in.push_back(k); } }
    op("history", n); int k = in[ch.choose((unsigned)in.size())]; STOP("push of a present element into an AVL tree", t.push(k));
}
static void prim(Chooser &ch) {
    op("history", (long)ch.choose(10)); int v = 3; Tracked t(4); Tracked *np = 0; int *ni = 0;
    STOP("construct at no address", dstruct::construct<int>(0, v)); STOP("construct of an object at no address", dstruct::construct<Tracked>(0, t));
    STOP("destroy at no address", dstruct::destroy(np)); STOP("destroy at no address (int)", dstruct::destroy(ni)); STOP("DSTRUCT_CRASH", DSTRUCT_CRASH(true)); STOP("DSTRUCT_ASSERT", DSTRUCT_ASSERT(1 + 1 == 3));
}
#ifdef ENABLE_SMA
// The static pool: exhaustion and invalid releases stop the program; what fits is always served.
static void sma_port(Chooser &ch) {
    struct B { char *p; int n; }; Vec<B> live; int total = 0; const int POOL = 1024 * 1024;
    int n = 1 + (int)ch.choose(60); op("history", n);
    for (int i = 0; i < n; i++) { int b = 1 + (int)ch.choose(ch.choose(3) ? 300 : 12000); B k = { (char *)dstruct::Alloc::allocate(b), b }; memset(k.p, i, b); live.push_back(k); total += (b + 7) / 8 * 8; if (ch.choose(3) == 0) { size_t q = ch.choose((unsigned)live.size()); dstruct::Alloc::deallocate(live[q].p, live[q].n); total -= (live[q].n + 7) / 8 * 8; live.erase(live.begin() + q); } }
    STOP("allocation beyond the pool", dstruct::Alloc::allocate(POOL - total + 1 + (int)ch.choose(1000)));
    STOP("allocation larger than the pool", dstruct::Alloc::allocate(POOL + 1 + (int)ch.choose(100000)));
    STOP("allocation of no bytes", dstruct::Alloc::allocate(0)); STOP("allocation of negative size", dstruct::Alloc::allocate(-1 - (int)ch.choose(100)));
    STOP("release of no address", dstruct::Alloc::deallocate(0, 8)); if (!live.empty()) STOP("release of no bytes", dstruct::Alloc::deallocate(live[0].p, 0));
    STOP("container larger than the pool", dstruct::Vector<int> v; for (int i = 0; i < POOL / 4; i++) v.push_back(i));
    for (size_t q = 0; q < live.size(); q++) dstruct::Alloc::deallocate(live[q].p, live[q].n);
}
// Fragment the pool, then ask for everything that is free in one piece: merging on demand must find it.
static void sma_merge(Chooser &ch) {
    typedef dstruct::port::DefaultSMA S; const int POOL = 1024 * 1024; struct B { char *p; int n; }; 
    int unit = 8 * (1 + (int)ch.choose(40)) - (int)ch.choose(8), cnt = 20 + (int)ch.choose(400); Vec<B> b; op("blocks", cnt, unit);
    char *lo; LIB(S::memory_merge(); lo = (char *)dstruct::Alloc::allocate(POOL); dstruct::Alloc::deallocate(lo, POOL));
    for (int i = 0; i < cnt; i++) { int sz = ch.choose(2) ? unit : 1 + (int)ch.choose(200); B k; k.n = sz; LIB(k.p = (char *)dstruct::Alloc::allocate(sz)); memset(k.p, 7 + i, sz); b.push_back(k); }
    // keep a few, release the rest in random order
    int keep = (int)ch.choose(4); op("keep", keep);
    for (size_t i = b.size(); i > 1; i--) { size_t j = ch.choose((unsigned)i); B t = b[i - 1]; b[i - 1] = b[j]; b[j] = t; }
    while ((int)b.size() > keep) { B k = b.back(); b.pop_back(); for (int i = 1; i < k.n; i++) EXPECT(C_MODEL, "contents", k.p[i] == k.p[0], "a block of %d bytes changed at byte %d", k.n, i); LIB(dstruct::Alloc::deallocate(k.p, k.n)); removal(); }
    // largest gap by the model (the pool starts at the lowest block handed out)
    std::sort(b.begin(), b.end(), [](const B &x, const B &y) { return x.p < y.p; });
    long at = 0, best = 0; for (size_t i = 0; i < b.size(); i++) { long o = b[i].p - lo; if (o - at > best) best = o - at; at = o + (b[i].n + 7) / 8 * 8; } if (POOL - at > best) best = POOL - at;
    long want = best - (long)ch.choose(8); op("allocate", want);
    void *p = 0; LIB(p = dstruct::Alloc::allocate((int)want)); EXPECT(C_MODEL, "merge-on-demand", p != 0, "no memory"); memset(p, 1, want);
    for (size_t i = 0; i < b.size(); i++) for (int q = 1; q < b[i].n; q++) EXPECT(C_MODEL, "contents", b[i].p[q] == b[i].p[0], "a kept block of %d bytes changed at byte %d", b[i].n, q);
    LIB(dstruct::Alloc::deallocate(p, (int)want)); for (size_t i = 0; i < b.size(); i++) LIB(dstruct::Alloc::deallocate(b[i].p, b[i].n));
    EXPECT_EQ(C_LEAK, "free", S::free_mem_size(), POOL);
    { int f; LIB(S::memory_merge(); f = S::max_free_mblock_size()); EXPECT_EQ(C_LEAK, "whole", f, POOL); }
    note_size(cnt);
}
// The pool is used up again and again, in small and in large pieces; after some releases, the
// largest piece that is free must be there each time.
static void sma_cycles(Chooser &ch) {
    typedef dstruct::port::DefaultSMA S; const int POOL = 1024 * 1024; struct B { char *p; int n; int round() const { return (n + 7) / 8 * 8; } }; Vec<B> b;
    int span = 64 << ch.choose(9), used = 0, rounds = 2 + (int)ch.choose(8), longest = 0; op("cycles", rounds, span);
    char *lo; LIB(S::memory_merge(); lo = (char *)dstruct::Alloc::allocate(POOL); dstruct::Alloc::deallocate(lo, POOL));
    auto sorted = [&] { std::sort(b.begin(), b.end(), [](const B &x, const B &y) { return x.p < y.p; }); };
    auto gap = [&] { sorted(); long at = 0, best = 0; for (size_t i = 0; i < b.size(); i++) { long o = b[i].p - lo; if (o - at > best) best = o - at; at = o + b[i].round(); } if (POOL - at > best) best = POOL - at; return (int)best; };
    auto get = [&](int n) { B k; k.n = n; LIB(k.p = (char *)dstruct::Alloc::allocate(n)); EXPECT(C_MODEL, "merge-on-demand", k.p != 0, "no memory although a range of %d bytes is free", n);
        EXPECT(C_MODEL, "outside", k.p >= lo && k.p + k.round() <= lo + POOL, "a block outside of the pool"); memset(k.p, 3 + (n & 63), n); b.push_back(k); used += k.round(); };
    auto put = [&](size_t i) { B k = b[i]; b.erase(b.begin() + i); for (int q = 1; q < k.n; q++) EXPECT(C_MODEL, "contents", k.p[q] == (char)(3 + (k.n & 63)), "a block of %d bytes changed at byte %d", k.n, q); LIB(dstruct::Alloc::deallocate(k.p, k.n)); used -= k.round(); };
    for (int r = 0; r < rounds; r++) {
        int leave = ch.choose(3) ? (int)ch.choose(4000) : (int)ch.choose(POOL / 2);
        for (int tries = 0; tries < 600 && POOL - used > leave; tries++) {
            int n = POOL - used > 200 * span ? 1 + (int)ch.choose(65536) : 1 + (int)ch.choose(span), g = gap(); if (n > g) n = g;
            if (n <= 0) break;
            get(n);
        }
        if ((int)b.size() > longest) longest = (int)b.size();
        if (ch.choose(3) && !b.empty()) { size_t n = ch.choose(3) ? 1 + ch.choose(6) : ch.choose((unsigned)b.size()); sorted(); size_t at = ch.choose((unsigned)b.size()); while (n-- && !b.empty()) put((ch.choose(4) ? at : at = ch.choose((unsigned)b.size())) % b.size()); }
        else while (b.size() > 3 && ch.choose(200)) put(ch.choose((unsigned)b.size()));
        int g = gap(); if (g > 0) { op("largest", g); get(g - (g > 8 ? (int)ch.choose(8) : 0)); }
        EXPECT_EQ(C_MODEL, "free", S::free_mem_size(), POOL - used); removal();
        if (ch.choose(2) && !b.empty()) put(b.size() - 1);
    }
    while (!b.empty()) put(ch.choose((unsigned)b.size()));
    EXPECT_EQ(C_LEAK, "free", S::free_mem_size(), POOL);
    { int f; LIB(S::memory_merge(); f = S::max_free_mblock_size()); EXPECT_EQ(C_LEAK, "whole", f, POOL); }
    note_size(longest);
}
#endif
int main(int argc, char **argv) {
    add("misuse", "misuse-vector<int>", 60, vec<int>);
    add("misuse", "misuse-vector<Tracked>", 40, vec<Tracked>);
    add("misuse", "misuse-string", 40, str);
    add("misuse", "misuse-slist<int>", 20, slist<int>);
    add("misuse", "misuse-slist<Tracked>", 20, slist<Tracked>);
    add("misuse", "misuse-dlist<int>", 20, dlist<int>);
    add("misuse", "misuse-dlist<Tracked>", 20, dlist<Tracked>);
    add("misuse", "misuse-heap<int>", 40, heap<int>);
    add("misuse", "misuse-stacks", 30, stacks);
    add("misuse", "misuse-uf", 40, uf);
    add("misuse", "misuse-map", 60, map);
    add("misuse", "misuse-avl", 40, avl);
    add("misuse", "misuse-primitives", 5, prim);
#ifdef ENABLE_SMA
    add("misuse", "misuse-static-pool", 60, sma_port);
    add("merge", "static-pool-cycles", 60, sma_cycles);
    add("merge", "static-pool-merge", 3000, sma_merge);
#endif
    return vh_main(argc, argv);
}
