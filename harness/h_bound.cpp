// Footprint and work: every operation is metered (bytes held from the allocator, peak during
// the operation, element copies, comparisons, allocations) and compared with bounds that follow
// from what the container holds, over growing, shrinking, sliding and oscillating workloads.
#include "pool.hpp"
#include <math.h>
using namespace vh;
typedef VH_ALLOC A;

struct Meter {
    long copies, compares, allocs; long long peak;
    static long cp() { return TS().copies + TS().assigns + TS().ctors; }
    Meter() { reset(); }
    void reset() { copies = cp(); compares = TS().compares; allocs = VA_().allocs; VA_().peak_bytes = VA_().live_bytes; }
    long dcopies() const { return cp() - copies; }
    long dcompares() const { return TS().compares - compares; }
    long dallocs() const { return VA_().allocs - allocs; }
};
static int lg(size_t n) { int k = 0; while (((size_t)1 << k) < n + 1) k++; return k; }
static long long live() { return VA_().live_bytes; }

// ---- adapters: front/back insertion and removal, upper bound of the bytes held for n elements
template <class T> struct VecD { typedef dstruct::Vector<T, A> C; enum { ENDS = 1, LINEAR = 0 }; static const char *nm() { return "vector"; }
    static void push(C &c, int v, int) { c.push_back(Val<T>::make(v)); } static void pop(C &c, int) { c.pop_back(); }
    static long long cap(size_t n) { return (long long)sizeof(T) * (4 * (long long)n + 8); } };
template <class T> struct StackD { typedef dstruct::Stack<T, A> C; enum { ENDS = 1, LINEAR = 0 }; static void push(C &c, int v, int) { c.push(Val<T>::make(v)); } static void pop(C &c, int) { c.pop(); }
    static long long cap(size_t n) { return VecD<T>::cap(n); } };
template <class T> struct MinD { typedef dstruct::MinStack<T, A> C; enum { ENDS = 1, LINEAR = 0 }; static void push(C &c, int v, int) { c.push(Val<T>::make(v)); } static void pop(C &c, int) { c.pop(); }
    static long long cap(size_t n) { return 2 * VecD<T>::cap(n); } };
template <class T, int ARR> struct DeqD { typedef dstruct::DoubleEndedQueue<T, ARR, A> C; enum { ENDS = 3, LINEAR = 0 };
    static void push(C &c, int v, int e) { if (e) c.push_front(Val<T>::make(v)); else c.push_back(Val<T>::make(v)); } static void pop(C &c, int e) { if (e) c.pop_front(); else c.pop_back(); }
    static long long cap(size_t n) { long long el = 8 * (long long)n + 64 * ARR; return (long long)sizeof(T) * el + 24 * (el / ARR + 16); } };
template <class T> struct QueD { typedef dstruct::Queue<T, A> C; enum { ENDS = 4, LINEAR = 0 }; static void push(C &c, int v, int) { c.push(Val<T>::make(v)); } static void pop(C &c, int) { c.pop(); }
    static long long cap(size_t n) { return DeqD<T, 32>::cap(n); } };
template <class T> struct SLstD { typedef dstruct::SinglyLinkedList<T, A> C; enum { ENDS = 5, LINEAR = 8 };
    static void push(C &c, int v, int e) { if (e) c.push_front(Val<T>::make(v)); else c.push_back(Val<T>::make(v)); } static void pop(C &c, int) { c.pop_front(); } static long long cap(size_t) { return 0; } };
template <class T> struct DLstD { typedef dstruct::DoublyLinkedList<T, A> C; enum { ENDS = 3, LINEAR = 16 };
    static void push(C &c, int v, int e) { if (e) c.push_front(Val<T>::make(v)); else c.push_back(Val<T>::make(v)); } static void pop(C &c, int e) { if (e) c.pop_front(); else c.pop_back(); } static long long cap(size_t) { return 0; } };
template <class D> struct Stores { enum { n = 1 }; };               // how many containers one is made of
template <class T> struct Stores<MinD<T> > { enum { n = 2 }; };
static long long pad16(long long b) { return (b + 15) / 16 * 16; }

template <class D, class T> static void check_bytes(const char *what, size_t n, long long node) {
    if (D::LINEAR) EXPECT(C_BOUND, what, live() == node * (long long)n && node <= pad16(sizeof(T)) + D::LINEAR + 8, "%zu elements hold %lld bytes, one element %lld", n, live(), node);
    else EXPECT(C_BOUND, what, live() <= D::cap(n), "%zu elements hold %lld bytes, more than %lld", n, live(), D::cap(n));
    EXPECT(C_BOUND, "peak", VA_().peak_bytes <= (D::LINEAR ? node * (long long)(n + 2) : 3 * D::cap(n + 1)) , "an operation with %zu elements held %lld bytes at once", n, VA_().peak_bytes);
}
template <class D, class T> static void linear(Chooser &ch) {
    typedef typename D::C C; void *mem = malloc(sizeof(C)); C *c; LIB(c = new (mem) C); size_t n = 0; int v = 1;
    Meter all; long ops = 0; const int dir = (int)ch.choose(3);      // rising, falling or mixed values
    long long node = 0;
    if (D::LINEAR) { LIB(D::push(*c, 1, 0)); node = live(); LIB(D::pop(*c, 0)); }
    auto one = [&](bool grow, int e) {
        if (!grow && !n) grow = true;
        Meter m; size_t before = n;
        if (grow) { op("push", e, (long)n); v++; const int x = dir == 0 ? v : dir == 1 ? -v : (int)((unsigned)v * 2654435761u >> 12); LIB(D::push(*c, x, e)); n++; } else { op("pop", e, (long)n); removal(); LIB(D::pop(*c, e)); n--; }
        ops++; note_size(n);
        check_bytes<D, T>("footprint", n, node);
        // a single operation copies at most a constant number of times what is held
        EXPECT(C_COST, "copies-op", m.dcopies() <= Stores<D>::n * (4 * (long)before + 16), "one operation on %zu elements copies elements %ld times", before, m.dcopies());
        if (ops % 64 == 0) {
            EXPECT(C_COST, "copies", all.dcopies() <= Stores<D>::n * (14 * ops + 64), "%ld operations copied elements %ld times", ops, all.dcopies());
        }
        if (ops % 16 == 0) note_state(mix(mix(n, live()), (uintptr_t)D::cap));
    };
    int style = (int)ch.choose(6); op("style", style);
    int N = 1 + (int)ch.choose(ch.choose(3) ? 120 : 1500);
    const bool both = D::ENDS == 3;
    int e1 = (both || D::ENDS == 5) ? (int)ch.choose(2) : 0, e2 = D::ENDS == 3 ? (int)ch.choose(2) : 0;
    switch (style) {
    case 0: for (int i = 0; i < N; i++) one(true, e1); for (int i = 0; i < N; i++) one(false, e2); break;                       // fill, drain
    case 1: for (int i = 0; i < N / 4 + 1; i++) one(true, e1); for (int i = 0; i < 1500; i++) { one(true, e1); one(false, e2); } break; // slide or oscillate at one size
    case 2: for (int i = 0; i < N; i++) { one(true, e1); if (i % 3 == 2) one(false, e2); } while (n) one(false, e2); break;
    case 3: { int w = 1 + (int)ch.choose(40); for (int r = 0; r < 40; r++) { for (int i = 0; i < w; i++) one(true, e1); for (int i = 0; i < w; i++) one(false, e2); } break; } // bursts
    case 4: { Phase ph; for (int i = 0; i < 1500; i++) { bool g = ph.want_grow(ch, n, N); one(g, both || (D::ENDS == 5 && g) ? (int)ch.choose(2) : 0); } break; }
    default: for (int i = 0; i < N; i++) one(true, e1); for (int r = 0; r < 6; r++) { int k = (int)n / 2; while (k--) one(false, e2); for (int q = 0; q < 100; q++) { one(true, e1); one(false, e2); } } break;
    }
    LIB(c->~C()); free(mem);
    EXPECT(C_BOUND, "destroyed", live() == 0, "%lld bytes held after destruction", live());
}
// oscillation around one size must not move the storage again and again
template <class D, class T> static void hysteresis(Chooser &ch) {
    typedef typename D::C C; void *mem = malloc(sizeof(C)); C *c; LIB(c = new (mem) C); int top = 1 + (int)ch.choose(300), n = top, v = 1;
    for (int i = 0; i < top; i++) LIB(D::push(*c, v++, 0));
    int down = (int)ch.choose(top); for (int i = 0; i < down; i++, n--) LIB(D::pop(*c, 0));
    op("grown", top, n); Meter m; for (int i = 0; i < 200; i++) { LIB(D::push(*c, v++, 0)); LIB(D::pop(*c, 0)); }
    op("oscillated", 200, m.dcopies()); removal();
    EXPECT(C_COST, "oscillation", m.dcopies() <= 400 * 10 + 6 * (n + 4), "400 operations at size %d copy elements %ld times", n, m.dcopies());
    LIB(c->~C()); free(mem); note_size(top); note_state(top * 1000 + n);
}
// what capacity() announces is there: pushes up to it take no memory, and after a push it holds what it says
template <class D, class T> static void announced(Chooser &ch) {
    typedef typename D::C C; C *c; void *mem = malloc(sizeof(C)); LIB(c = new (mem) C); Phase ph; size_t n = 0; long within = 0;
    const int mx = 1 + (int)ch.choose(ch.choose(2) ? 40 : 700), N = 60 + (int)ch.choose(900);
    for (int i = 0; i < N; i++) {
        bool room = c->size() < c->capacity();
        if (n == 0 || ph.want_grow(ch, n, mx)) {
            int x = (int)ch.choose(1000); op("push", x, (long)c->capacity()); T e = Val<T>::make(x); Meter m; LIB(D::push(*c, x, 0)); n++; within += room;
            EXPECT(C_COST, "capacity-announced", !room || m.dallocs() == 0, "a push onto %zu elements allocates %ld times although the announced capacity is larger", n - 1, m.dallocs());
        } else { op("pop", (long)n); removal(); LIB(D::pop(*c, 0)); n--; }
        EXPECT(C_COST, "capacity-at-least-size", c->capacity() >= n, "capacity %zu with %zu elements", (size_t)c->capacity(), n);
        note_size(n); note_state(mix(n, c->capacity()));
    }
    LIB(c->~C()); free(mem);
}
static void str(Chooser &ch) {
    typedef Str S; S *s = new (malloc(sizeof(S))) S; long n = 0, ops = 0, n0 = 0;
    auto chk = [&](const char *w) { EXPECT(C_BOUND, w, live() <= 3 * n + 64, "a string of %ld characters holds %lld bytes", n, live()); EXPECT(C_BOUND, w, VA_().peak_bytes <= 14 * (n > n0 ? n : n0) + 320, "an operation on a string of %ld characters held %lld bytes at once", n > n0 ? n : n0, VA_().peak_bytes); };
    for (int i = 0; i < 300; i++) {
        Meter m; ops++; n0 = n;
        switch (ch.choose(8)) {
        case 0: { char b[64]; int k = (int)ch.choose(60); memset(b, 'x', k); b[k] = 0; op("append", k); LIB(*s += b); n += k; break; }
        case 1: if (n < 3000) { op("append_self"); LIB(*s += *s); n *= 2; } break;
        case 2: if (ch.choose(6) == 0) { op("clear"); removal(); LIB(s->clear()); n = 0; } break;
        case 3: if (ch.choose(6) == 0) { op("assign"); removal(); LIB(*s = "abc"); n = 3; } break;
        default: for (int k = 0; k < 20; k++, n++) { op("push_back"); LIB(s->push_back('a')); } break;
        }
        chk("string-footprint"); note_size(n); note_state(mix(n, live()));
        EXPECT_EQ(C_MODEL, "size", s->size(), n);
    }
    { Meter m; n0 = n; LIB(s->clear()); n = 0; chk("string-cleared"); long k0 = m.dallocs(); for (int k = 0; k < 4000; k++) { LIB(s->push_back('b')); } n = 4000; EXPECT(C_COST, "string-allocs", m.dallocs() - k0 <= 24, "4000 characters pushed one by one allocate %ld times", m.dallocs() - k0); chk("string-grown"); }
    LIB(s->~S()); free(s); EXPECT(C_BOUND, "destroyed", live() == 0, "%lld bytes held after destruction", live());
}
template <class T> static void heap(Chooser &ch) {
    typedef dstruct::Heap<T, dstruct::less<T>, A> H; H *h = new (malloc(sizeof(H))) H; size_t n = 0; long ops = 0; Meter all; Phase ph; int style = (int)ch.choose(3); int mx = 1 + (int)ch.choose(600);
    long long budget = 0;
    for (int i = 0; i < 1200; i++) {
        bool g = n == 0 || ph.want_grow(ch, n, mx); Meter m; int x = style == 0 ? (int)ch.choose(1000000) : style == 1 ? i : -i;
        if (g) { op("push", x); T e = Val<T>::make(x); LIB(h->push(e)); n++; } else { op("pop"); removal(); LIB(h->pop()); n--; }
        int L = lg(n + 1); ops++; budget += 2 * L + 4; note_size(n);
        EXPECT(C_COST, "heap-compares", m.dcompares() <= 4 * L + 8, "one operation on %zu elements compares %ld times", n, m.dcompares());
        EXPECT(C_BOUND, "heap-footprint", live() <= VecD<T>::cap(n + 1), "a heap of %zu elements holds %lld bytes", n, live());
        EXPECT(C_COST, "heap-copies", m.dcopies() <= 4 * (long)n + 6 * L + 24, "one operation on %zu elements copies %ld times", n, m.dcopies());
        note_state(mix(n, live()));
    }
    LIB(h->~H()); free(h); EXPECT(C_BOUND, "destroyed", live() == 0, "%lld bytes held after destruction", live());
}
template <class T, class Tr, bool AVL> static void tree(Chooser &ch) {
    Tr *t = new (malloc(sizeof(Tr))) Tr; Vec<int> in; Phase ph; int mx = 2 + (int)ch.choose(ch.choose(3) ? 60 : 700), style = (int)ch.choose(4); int next = 1; long long node = 0;
    for (int i = 0; i < 900; i++) {
        size_t n = in.size(); int H = (int)t->height();
        // an AVL tree of n elements has at most 1.4405*log2(n+2) levels; a plain search tree is judged by its own height
        int depth = AVL ? (int)(1.4405 * log2((double)n + 3)) + 1 : H + 1;
        if (AVL) EXPECT(C_COST, "avl-height", n == 0 ? H == 0 : H <= (int)(1.4405 * log2((double)n + 2)) , "a tree of %zu elements has %d levels", n, H);
        bool g = n == 0 || ph.want_grow(ch, n, mx); Meter m; 
        if (g) {
            int x = style == 0 ? next : style == 1 ? -next : (int)ch.choose(1 << 24); next++; bool dup = false; for (size_t q = 0; q < n; q++) dup = dup || in[q] == x; if (dup) continue;
            op("push", x); T e = Val<T>::make(x); LIB(t->push(e)); in.push_back(x);
            EXPECT(C_COST, "push-compares", m.dcompares() <= 4 * depth + 8, "push into %zu elements (%d levels) compares %ld times", n, H, m.dcompares());
            EXPECT(C_COST, "push-allocs", m.dallocs() <= 1, "push allocates %ld times", m.dallocs());
        } else {
            size_t q = style == 3 ? n - 1 : ch.choose((unsigned)n); int x = in[q]; in[q] = in.back(); in.pop_back(); op("pop", x); removal(); T e = Val<T>::make(x); LIB(t->pop(e));
            EXPECT(C_COST, "pop-compares", m.dcompares() <= 4 * depth + 8, "pop from %zu elements (%d levels) compares %ld times", n, H, m.dcompares());
            EXPECT(C_COST, "pop-allocs", m.dallocs() <= 0, "pop allocates %ld times", m.dallocs());
        }
        n = in.size(); if (n == 1) { if (!node) node = live(); EXPECT(C_BOUND, "node", node <= pad16(sizeof(T)) + 48, "a tree of one element holds %lld bytes", node); }
        EXPECT(C_BOUND, "tree-footprint", live() == node * (long long)n, "a tree of %zu elements holds %lld bytes, one of one element %lld", n, live(), node);
        if (n) { Meter f; int x = ch.choose(2) ? in[ch.choose((unsigned)n)] : (int)ch.choose(1 << 24); T e = Val<T>::make(x); LIB(t->find(e)); int HH = (int)t->height(); EXPECT(C_COST, "find-compares", f.dcompares() <= 4 * HH + 4, "find in %zu elements (%d levels) compares %ld times", n, HH, f.dcompares()); EXPECT(C_COST, "find-allocs", f.dallocs() == 0, "find allocates"); }
        note_size(n); note_state(mix(n, H));
    }
    LIB(t->clear()); EXPECT(C_BOUND, "cleared", live() == 0, "%lld bytes held after clear", live());
    LIB(t->~Tr()); free(t);
}
template <class T> struct BstWithHeight : dstruct::tree::BinarySearchTree<T, dstruct::less<T>, A> {
    typedef dstruct::tree::BinarySearchTree<T, dstruct::less<T>, A> B;
    // the height is not public: recompute it from the preorder and the sorted sequence
    int height() const { Vec<int> p; struct Cb { Vec<int> *p; void operator()(const T &v) { p->push_back(Val<T>::key(v)); } } cb = { &p }; B::traversal(cb, B::TraversalType::PreOrder); size_t i = 0; return rec(p, i, -2147483647ll - 2, 2147483648ll); }
    static int rec(const Vec<int> &p, size_t &i, long long lo, long long hi) { if (i >= p.size() || p[i] <= lo || p[i] >= hi) return 0; int v = p[i++]; int a = rec(p, i, lo, v), b = rec(p, i, v, hi); return (a > b ? a : b) + 1; }
};
static void map(Chooser &ch) {
    typedef dstruct::Map<Tracked, int, dstruct::less<Tracked>, dstruct::AVLTree<dstruct::KeyValue<const Tracked, int>, dstruct::KVCMPKey<dstruct::KeyValue<const Tracked, int>, dstruct::less<Tracked> >, A> > M;
    M *m = new (malloc(sizeof(M))) M; Vec<int> in; long long node = 0; int mx = 2 + (int)ch.choose(300);
    for (int i = 0; i < 600; i++) {
        size_t n = in.size(); int depth = (int)(1.4405 * log2((double)n + 3)) + 1; Meter q; int x = (int)ch.choose(mx * 2); size_t at = 0; while (at < n && in[at] != x) at++;
        if (ch.choose(3) || n == 0) { op("set", x); Tracked k(x); LIB((*m)[k] = i); if (at == n) in.push_back(x); EXPECT(C_COST, "index-compares", q.dcompares() <= 9 * depth + 8, "m[k] with %zu entries compares %ld times", n, q.dcompares()); EXPECT(C_COST, "index-allocs", q.dallocs() <= 1, "m[k] allocates %ld times", q.dallocs()); }
        else { op("pop", x); removal(); Tracked k(x); LIB(m->pop(k)); if (at < n) { in[at] = in.back(); in.pop_back(); } EXPECT(C_COST, "pop-compares", q.dcompares() <= 4 * depth + 8, "pop with %zu entries compares %ld times", n, q.dcompares()); }
        n = in.size(); if (n == 1 && !node) node = live(); EXPECT(C_BOUND, "map-footprint", live() == node * (long long)n, "a map of %zu entries holds %lld bytes, one of one entry %lld", n, live(), node); note_size(n); note_state(n);
    }
    LIB(m->~M()); free(m); EXPECT(C_BOUND, "destroyed", live() == 0, "%lld bytes held after destruction", live());
}
// ---- two objects which are filled, emptied, cleared, copied and moved again and again: what is held follows from the contents alone
template <class C> static auto clr(C &c, int) -> decltype(c.clear(), void()) { c.clear(); }
template <class C> static void clr(C &c, long) { C e; c = e; }
template <class T> struct HeapD { typedef dstruct::Heap<T, dstruct::less<T>, A> C; enum { ENDS = 1, LINEAR = 0 }; static void push(C &c, int v, int) { c.push(Val<T>::make(v)); } static void pop(C &c, int) { c.pop(); } static long long cap(size_t n) { return VecD<T>::cap(n + 1); } };
struct StrD { typedef Str C; enum { LINEAR = 0 }; static void push(C &c, int v, int) { c.push_back((char)('a' + (unsigned)v % 26)); } static void pop(C &c, int) { const size_t n = c.size() - 1; C s; for (size_t i = 0; i < n; i++) s.push_back(c[(int)i]); c = s; } static long long cap(size_t n) { return 3 * (long long)n + 64; } };
template <class T, class Tr> struct TreeD { typedef Tr C; enum { LINEAR = 48 }; static void push(C &c, int v, int) { c.push(Val<T>::make(v)); } static void pop(C &c, int e) { if (e) { T x = *c.begin(); c.pop(x); } else c.erase(c.begin()); } static long long cap(size_t) { return 0; } };
struct MapD { typedef dstruct::Map<int, Tracked, dstruct::less<int>, dstruct::AVLTree<dstruct::KeyValue<const int, Tracked>, dstruct::KVCMPKey<dstruct::KeyValue<const int, Tracked>, dstruct::less<int> >, A> > C; enum { LINEAR = 64 };
    static void push(C &c, int v, int) { c[v] = Tracked(v); } static void pop(C &c, int e) { auto it = c.begin(); if (e) c.pop(it->key); else c.erase(it); } static long long cap(size_t) { return 0; } };
template <class D> static void duo(Chooser &ch) {
    typedef typename D::C C; C *c[2]; size_t n[2] = { 0, 0 }; long long node = 0, base = 0; int v = 0; const int dir = (int)ch.choose(3);
    for (int i = 0; i < 2; i++) { void *m = malloc(sizeof(C)); LIB(c[i] = new (m) C); }
    if (D::LINEAR) { base = live(); LIB(D::push(*c[0], 0, 0)); node = live() - base; LIB(D::pop(*c[0], 0)); EXPECT(C_BOUND, "empty-again", live() == base, "%lld bytes held after the only element was removed", live()); }
    const int rounds = 150;
    for (int r = 0; r < rounds; r++) {
        int i = (int)ch.choose(2), j = 1 - i, what = (int)ch.choose(10);
        switch (what) {
        case 0: case 1: case 2: { int k = 1 + (int)ch.choose(ch.choose(4) ? 12 : 150); op("push", i, k); while (k--) { v++; int x = dir == 0 ? v : dir == 1 ? -v : (int)((unsigned)v * 2654435761u >> 8); LIB(D::push(*c[i], x, (int)(k & 1))); n[i]++; } break; }
        case 3: case 4: { int k = 1 + (int)ch.choose(40); op("pop", i, k); removal(); while (k-- && n[i]) { LIB(D::pop(*c[i], k & 1)); n[i]--; } break; }
        case 5: op("clear", i); removal(); LIB(clr(*c[i], 0)); n[i] = 0; break;
        case 6: op("copy_assign", i, j); removal(); LIB(*c[i] = *(const C *)c[j]); n[i] = n[j]; break;
        case 7: op("move_assign", i, j); removal(); LIB(*c[i] = dstruct::move(*c[j])); n[i] = n[j]; n[j] = 0; break;
        case 8: op("self_assign", i); LIB(*c[i] = *(const C *)c[i]); break;
        default: op("copy_and_back", i); LIB({ C t(*(const C *)c[i]); *c[i] = dstruct::move(t); }); removal(); break;
        }
        note_size(n[i]);
        if (D::LINEAR) EXPECT(C_BOUND, "duo-footprint", live() == base + node * (long long)(n[0] + n[1]), "two objects of %zu and %zu elements hold %lld bytes, one element %lld", n[0], n[1], live(), node);
        else EXPECT(C_BOUND, "duo-footprint", live() <= D::cap(n[0]) + D::cap(n[1]), "two objects of %zu and %zu elements hold %lld bytes, more than %lld", n[0], n[1], live(), D::cap(n[0]) + D::cap(n[1]));
        note_state(mix(n[0] * 4096 + n[1], live()));
    }
    for (int i = 0; i < 2; i++) { LIB(c[i]->~C()); free(c[i]); }
    EXPECT(C_BOUND, "destroyed", live() == 0, "%lld bytes held after destruction", live());
}
// ---- many elements, one after the other: copies of elements and memory obtained stay proportional to the operations
struct Cnt { int k; static long made; Cnt() : k(0) {} Cnt(int v) : k(v) {} Cnt(const Cnt &o) : k(o.k) { made++; } Cnt &operator=(const Cnt &o) { k = o.k; made++; return *this; } bool operator<(const Cnt &o) const { return k < o.k; } bool operator>(const Cnt &o) const { return k > o.k; } bool operator==(const Cnt &o) const { return k == o.k; } };
long Cnt::made;
template <> struct vh::Val<Cnt> { static Cnt make(int k) { return Cnt(k); } static int key(const Cnt &c) { return c.k; } static int norm(int k) { return k; } };
template <class D> static void amortized(Chooser &ch) {
    typedef typename D::C C; C *c; void *mem = malloc(sizeof(C)); LIB(c = new (mem) C);
    const int N = D::AM_COPIES > 20 ? 30000 + (int)ch.choose(70000) : 60000 + (int)ch.choose(540000), e = (int)ch.choose(2), e2 = (int)ch.choose(2); long ops = 0, n = 0; op("many", N, e, e2); removal(); int steps = 0;
    const long m0 = Cnt::made, a0 = VA_().allocs; const long long g0 = VA_().got; const int dir = (int)ch.choose(2) ? 1 : -1;
    auto chk = [&](const char *what) {
        const long made = Cnt::made - m0, al = VA_().allocs - a0; const long long got = VA_().got - g0;
        EXPECT(C_COST, what, made <= D::AM_COPIES * ops + 4096, "%ld operations, %ld elements: elements copied %ld times", ops, n, made);
        EXPECT(C_COST, what, al <= ops * D::AM_ALLOC / 8 + 4096, "%ld operations, %ld elements: %ld allocations", ops, n, al);
        EXPECT(C_COST, what, got <= (long long)D::AM_BYTES * ops + 65536, "%ld operations, %ld elements: %lld bytes obtained altogether", ops, n, got);
        note_size(n); note_state(mix(n, VA_().live_bytes));
    };
    auto run = [&](int k, bool grow, int end) { LIB(while (k-- && (grow || n)) { if (grow) { D::push(*c, dir * (int)++steps, end); n++; } else { D::pop(*c, end); n--; } ops++; if (ops % 2048 == 0) { OutLib o; chk(grow ? "growing" : "shrinking"); } }); };
    switch (ch.choose(3)) {
    case 0: run(N, true, e); run(N, false, e2); break;
    case 1: run(N / 2, true, e); for (int i = 0; i < 20 && n; i++) { run(N / 20, false, e2); run(N / 30, true, e); } break;
    default: run(N / 2, true, e); run(N / 4, false, e2); run(N / 2, true, !e); run(N, false, !e2); break;
    }
    chk("amortized"); LIB(c->~C()); free(mem);
    EXPECT(C_BOUND, "destroyed", live() == 0, "%lld bytes held after destruction", live());
}
#define AMORT(NAME, BASE, CP, AL, BY) struct NAME : BASE { enum { AM_COPIES = CP, AM_ALLOC = AL, AM_BYTES = BY }; };
AMORT(AmVec, VecD<Cnt>, 8, 1, 60) AMORT(AmStack, StackD<Cnt>, 8, 1, 60) typedef DeqD<Cnt, 32> Deq32_; typedef DeqD<Cnt, 4> Deq4_; typedef DeqD<Cnt, 1> Deq1_;
AMORT(AmDeq32, Deq32_, 6, 4, 160) AMORT(AmDeq4, Deq4_, 6, 24, 240) AMORT(AmDeq1, Deq1_, 6, 80, 480) AMORT(AmQue, QueD<Cnt>, 6, 4, 160) AMORT(AmHeap, HeapD<Cnt>, 80, 1, 60) AMORT(AmMin, MinD<Cnt>, 16, 2, 120)
// ---- right at the sizes where the storage grows or shrinks: filled from one end to such a size, then oscillating by some
// width or drained, at either end
template <class D> static void edge(Chooser &ch) {
    typedef typename D::C C; const int both = D::ENDS == 3, lim = 40 + (int)ch.choose(ch.choose(4) ? 400 : 20000); int e1 = both ? (int)ch.choose(2) : 0, e2 = both ? (int)ch.choose(2) : 0; int v = 0;
    Vec<int> at; { C *s; void *m = malloc(sizeof(C)); LIB(s = new (m) C; long long b = live(); for (int i = 0; i < lim * 3; i++) { D::push(*s, ++v, e1); if (live() != b) { b = live(); at.push_back(i); if (i >= lim) break; } } s->~C()); free(m); }
    const int back = ch.choose(2) ? 0 : (int)ch.choose(3 * D::UNIT + 1), n0 = at.back() > back ? at.back() - back : 0; C *c; void *mem = malloc(sizeof(C)); LIB(c = new (mem) C); long n = 0, ops = 0; op("edge", at.back(), n0, e1 * 2 + e2); removal();
    auto one = [&](bool grow, int e) { if (grow) { D::push(*c, ++v, e); n++; } else { D::pop(*c, e); n--; } ops++; OutLib o; if (ops % 16 == 0 || n < 200) EXPECT(C_BOUND, "edge-footprint", live() <= D::cap((size_t)n), "%ld elements hold %lld bytes, more than %lld", n, live(), D::cap((size_t)n)); };
    LIB(while (n < n0) one(true, e1));
    for (int turn = 0; turn < 4; turn++) {
        const int w = 1 + (int)ch.choose(ch.choose(3) ? 3 : 5 * D::UNIT); const long n1 = n, o0 = ops, m0 = Cnt::made, a0 = VA_().allocs; const long long g0 = VA_().got; const bool down = ch.choose(2); op("oscillate", w, n, e1 * 4 + e2 * 2 + down);
        LIB(for (int r = 0; r < 1200 / w + 4; r++) { for (int k = 0; k < w; k++) if (!down || n) one(!down, down ? e2 : e1); for (int k = 0; k < w; k++) if (down || n) one(down, down ? e1 : e2); });
        const long q = ops - o0, made = Cnt::made - m0, al = VA_().allocs - a0; const long long got = VA_().got - g0;
        EXPECT(C_COST, "edge-copies", made <= 2 * D::AM_COPIES * q + 8 * n1 + 64, "%ld operations at size %ld copy elements %ld times", q, n1, made);
        EXPECT(C_COST, "edge-allocs", al <= q + D::AM_ALLOC * q / 4 + 8 * n1 / D::UNIT + 64, "%ld operations at size %ld allocate %ld times", q, n1, al);
        EXPECT(C_COST, "edge-bytes", got <= 2ll * D::AM_BYTES * q + 400 * n1 + 8192, "%ld operations at size %ld obtain %lld bytes", q, n1, got);
        note_size(n); note_state(mix(mix(n, live()), w));
        // to another such size, or nearly empty
        e1 = both ? (int)ch.choose(2) : 0; e2 = both ? (int)ch.choose(2) : 0; long to;
        switch (ch.choose(4)) { case 0: to = at[ch.choose((unsigned)at.size())] - (long)ch.choose(2 * D::UNIT + 1); break; case 1: to = (long)n / 3 + (long)ch.choose(2 * D::UNIT + 1) - D::UNIT; break;
        default: { int k = 1; while (((long)D::UNIT << k) < lim) k++; k -= (int)ch.choose(3); to = (long)D::UNIT << (k > 0 ? k : 0); if (ch.choose(3) == 0) to /= 3; to += (long)ch.choose(5 * D::UNIT + 1) - 4 * D::UNIT; } }
        if (to < 0) to = 0; op("to", to, e1); LIB(while (n < to) one(true, e1); while (n > to) one(false, e2));
    }
    op("drain", e2); LIB(while (n) one(false, e2)); LIB(c->~C()); free(mem); EXPECT(C_BOUND, "destroyed", live() == 0, "%lld bytes held after destruction", live());
}
template <class B, int U> struct Edge : B { enum { UNIT = U }; };
// ---- sizes at which anything worse than the documented order of growth does not finish
static void big_lists(Chooser &ch) {
    const int N = 300000; op("big", N); removal(); long sum = 0; note_size(N);
    { dstruct::DoublyLinkedList<int, A> l; LIB(for (int i = 0; i < N; i++) { if (i & 1) l.push_back(i); else l.push_front(i); sum += (long)l.size() + l.back(); } for (int i = 0; i < N; i++) { if (i & 1) l.pop_back(); else l.pop_front(); }); EXPECT_EQ(C_MODEL, "size", l.size(), 0); }
    { dstruct::SinglyLinkedList<int, A> l; LIB(for (int i = 0; i < N; i++) { if (i & 1) l.push_back(i); else l.push_front(i); sum += (long)l.size() + l.back(); } for (int i = 0; i < N; i++) l.pop_front()); EXPECT_EQ(C_MODEL, "size", l.size(), 0); }
    G().checks += sum != 0; note_state(ch.choose(2) + 1);
}
static void big_queues(Chooser &ch) {
    const int N = 400000; op("big", N); removal(); note_size(N); long sum = 0;
    { dstruct::Queue<int, A> q; LIB(for (int i = 0; i < N; i++) { q.push(i); sum += q.front() + q.back(); } for (int i = 0; i < N; i++) { sum += q.front() == i; q.pop(); }); EXPECT_EQ(C_MODEL, "size", q.size(), 0); }
    { dstruct::Deque<int, 8, A> q; LIB(for (int i = 0; i < N; i++) q.push_front(i); for (auto it = q.begin(); it != q.end(); ++it) sum += *it; for (int i = 0; i < N; i++) q.pop_back()); EXPECT_EQ(C_MODEL, "size", q.size(), 0); }
    { dstruct::MinStack<int, A> s; LIB(for (int i = 0; i < N; i++) { s.push(N - i); sum += s.getXValue(); } for (int i = 0; i < N; i++) { sum += s.getXValue() == i + 1; s.pop(); }); EXPECT_EQ(C_MODEL, "size", s.empty(), true); }
    { dstruct::Heap<int, dstruct::less<int>, A> h; LIB(for (int i = 0; i < N; i++) h.push(N - i); for (int i = 0; i < N; i++) h.pop()); EXPECT_EQ(C_MODEL, "size", h.size(), 0); }
    { Str s; LIB(for (int i = 0; i < N * 2; i++) s.push_back('c')); EXPECT_EQ(C_MODEL, "size", s.size(), N * 2); }
    G().checks += sum != 0; note_state(ch.choose(2) + 3);
}
static void big_trees(Chooser &ch) {
    const int N = 150000; op("big", N); removal(); note_size(N); long sum = 0, n = 0;
    { dstruct::AVLTree<int, dstruct::less<int>, A> t; LIB(for (int i = 0; i < N; i++) t.push(i); for (auto it = t.begin(); it != t.end(); ++it) sum += *it; for (int i = 0; i < N; i++) n += t.find(i) != t.end(); for (int i = 0; i < N; i++) t.pop(i)); EXPECT_EQ(C_MODEL, "found", n, N); EXPECT_EQ(C_MODEL, "size", t.size(), 0); }
    { dstruct::tree::BinarySearchTree<int, dstruct::less<int>, A> t; n = 0; LIB(for (int i = 0; i < N; i++) t.push((int)((i * 2654435761u) % 16777213u)); for (auto it = t.begin(); it != t.end(); ++it) n++); EXPECT_EQ(C_MODEL, "iterated", n, (long)t.size()); }
    { const int U = 300000; dstruct::DisjointSet<A> u(U); LIB(for (int i = 1; i < U; i++) u.connect(i - 1, i); for (int i = U - 1; i >= 0; i--) sum += u.find(i)); EXPECT_EQ(C_MODEL, "sets", u.count(), 1); }
    { const int U = 200000; dstruct::DisjointSet<A> u(U); LIB(for (int w = 1; w < U; w *= 2) for (int i = 0; i + w < U; i += 2 * w) u.connect(i, i + w); for (int i = 0; i < U; i++) sum += u.find(i)); EXPECT_EQ(C_MODEL, "sets", u.count(), 1); }
    G().checks += sum != 0; note_state(ch.choose(2) + 5);
}
int main(int argc, char **argv) {
    watch_malloc();
    typedef Tracked T;
#if PART(0)
    add("bound", "bound-vector<int>", 300, linear<VecD<int>, int>); add("bound", "bound-vector<Tracked>", 200, linear<VecD<T>, T>); add("bound", "bound-stack<Tracked>", 100, linear<StackD<T>, T>);
    add("bound", "bound-minstack<Tracked>", 150, linear<MinD<T>, T>); add("bound", "bound-string", 200, str);
    add("bound", "bound-slist<Tracked>", 150, linear<SLstD<T>, T>); add("bound", "bound-dlist<Tracked>", 150, linear<DLstD<T>, T>); add("bound", "bound-slist<char>", 100, linear<SLstD<char>, char>); add("bound", "bound-dlist<longdouble>", 100, linear<DLstD<long double>, long double>);
    add("bound", "oscillation-vector", 400, hysteresis<VecD<T>, T>); add("bound", "oscillation-minstack", 200, hysteresis<MinD<T>, T>);
    add("bound", "duo-vector<Tracked>", 150, duo<VecD<T> >); add("bound", "duo-stack<int>", 100, duo<StackD<int> >); add("bound", "duo-minstack<int>", 200, duo<MinD<int> >); add("bound", "duo-string", 100, duo<StrD>);
    add("bound", "duo-slist<Tracked>", 100, duo<SLstD<T> >); add("bound", "duo-dlist<int>", 100, duo<DLstD<int> >);
    add("bound", "many-vector", 10, amortized<AmVec>); add("bound", "many-stack", 5, amortized<AmStack>); add("bound", "many-minstack", 6, amortized<AmMin>);
    add("bound", "edge-vector", 60, edge<Edge<AmVec, 1> >); add("bound", "edge-stack", 30, edge<Edge<AmStack, 1> >); add("bound", "edge-minstack", 40, edge<Edge<AmMin, 1> >);
    add("big", "big-lists", 1, big_lists);
#endif
#if PART(1)
    add("bound", "announced-vector<int>", 150, announced<VecD<int>, int>); add("bound", "announced-vector<Tracked>", 100, announced<VecD<T>, T>); add("bound", "announced-heap<int>", 150, announced<HeapD<int>, int>);
    add("bound", "bound-deque<int,32>", 300, linear<DeqD<int, 32>, int>); add("bound", "bound-deque<Tracked,4>", 200, linear<DeqD<T, 4>, T>); add("bound", "bound-deque<Tracked,1>", 100, linear<DeqD<T, 1>, T>); add("bound", "bound-deque<int,7>/up", 200, linear<DeqD<int, 7>, int>, VA_UP);
    add("bound", "bound-queue<Tracked>", 200, linear<QueD<T>, T>); add("bound", "oscillation-deque", 200, hysteresis<DeqD<T, 4>, T>);
    add("bound", "bound-heap<Tracked>", 200, heap<T>);
    add("bound", "duo-deque<Tracked,4>", 150, duo<DeqD<T, 4> >); add("bound", "duo-deque<int,1>", 100, duo<DeqD<int, 1> >); add("bound", "duo-queue<int>", 100, duo<QueD<int> >); add("bound", "duo-heap<Tracked>", 150, duo<HeapD<T> >);
    add("bound", "many-deque<32>", 8, amortized<AmDeq32>); add("bound", "many-deque<4>", 8, amortized<AmDeq4>); add("bound", "many-deque<1>", 5, amortized<AmDeq1>); add("bound", "many-queue", 6, amortized<AmQue>); add("bound", "many-heap", 5, amortized<AmHeap>);
    add("bound", "edge-deque<32>", 80, edge<Edge<AmDeq32, 32> >); add("bound", "edge-deque<4>", 80, edge<Edge<AmDeq4, 4> >); add("bound", "edge-deque<1>", 60, edge<Edge<AmDeq1, 1> >); add("bound", "edge-queue", 50, edge<Edge<AmQue, 32> >); add("bound", "edge-heap", 40, edge<Edge<AmHeap, 1> >);
    add("big", "big-queues", 1, big_queues);
#endif
#if PART(2)
    add("bound", "bound-avl<Tracked>", 150, tree<T, dstruct::AVLTree<T, dstruct::less<T>, A>, true>); add("bound", "bound-bst<Tracked>", 100, tree<T, BstWithHeight<T>, false>); add("bound", "bound-map<Tracked,int>", 100, map);
    add("bound", "duo-avl<Tracked>", 100, duo<TreeD<T, dstruct::AVLTree<T, dstruct::less<T>, A> > >); add("bound", "duo-bst<Tracked>", 100, duo<TreeD<T, dstruct::tree::BinarySearchTree<T, dstruct::less<T>, A> > >); add("bound", "duo-map<int,Tracked>", 100, duo<MapD>);
    add("big", "big-trees", 1, big_trees);
#endif
    return vh_main(argc, argv);
}
