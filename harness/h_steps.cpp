// Steps: the compiler counts every basic block which is executed (-fsanitize-coverage=trace-pc), so the time
// an operation takes is measured exactly and the same on every run. Whatever the order of growth allows is far
// below the limits here, whatever walks through the contents is far above them.
#include "vh.hpp"
#include <dstruct.hpp>
using namespace vh;
static volatile long pc;
extern "C" __attribute__((no_sanitize_coverage, noinline)) void __sanitizer_cov_trace_pc() { pc = pc + 1; }
// the library's memory comes straight from malloc, which is not counted
struct Plain { static void *allocate(int n) { return malloc((size_t)n); } static void deallocate(void *p, int) { free(p); } };
static volatile long sink;
static long worst_;
template <class F> static long steps(F f) { long a = pc; LIB(a = pc; f(); a = pc - a); if (a > worst_) worst_ = a; return a; }
static int lg(size_t n) { int k = 0; while (((size_t)1 << k) < n + 1) k++; return k; }
enum { ONCE = 1500, EACH = 1000, LEVEL = 300 };

static void flat(const char *what, size_t n, long s) { EXPECT(C_COST, what, s <= ONCE, "%s takes %ld steps with %zu elements", what, s, n); }
static void levels(const char *what, size_t n, long s) { EXPECT(C_COST, what, s <= ONCE + LEVEL * (long)lg(n), "%s takes %ld steps with %zu elements", what, s, n); }
static void total(const char *what, size_t n, long s, long ops) { EXPECT(C_COST, what, s <= ONCE + EACH * (ops + 1), "%s: %ld operations take %ld steps (%zu elements)", what, ops, s, n); }
#define FLAT(what, e) do { op(what, (long)n); flat(what, n, steps([&] { sink = sink + (long)(e); })); } while (0)

static size_t size_of(Chooser &ch) { static const int at[] = { 1, 2, 40, 300, 5000, 60000, 200000 }; unsigned w = ch.choose(7); size_t n = (size_t)at[w]; return n + ch.choose((unsigned)(n / 2 + 1)); }

// walks the whole container
template <class C> static void walk(const C &c, size_t n) {
    size_t k = 0; op("walk", (long)n); long s = steps([&] { auto e = c.end(); for (auto it = c.begin(); it != e; ++it) { sink = sink + 1; k++; } });
    EXPECT_EQ(C_MODEL, "walk", k, n); total("walk", n, s, (long)n);
}
// construction by move, and back by assignment to the empty one
template <class C> static void moves(C *&c, size_t n) {
    C *d = 0; void *p = malloc(sizeof(C)); op("move", (long)n); flat("move", n, steps([&] { d = new (p) C(dstruct::move(*c)); }));
    op("move_assign", (long)n); flat("move-assign", n, steps([&] { *c = dstruct::move(*d); }));
    op("swap", (long)n); flat("swap", n, steps([&] { dstruct::swap(*c, *d); })); flat("swap", n, steps([&] { dstruct::swap(*c, *d); }));
    flat("destroy-moved-from", n, steps([&] { d->~C(); })); free((void *)d);
}
template <class C> static void copies(C *c, size_t n) {
    C *d = 0; void *p = malloc(sizeof(C)); op("copy", (long)n); total("copy", n, steps([&] { d = new (p) C(*(const C *)c); }), (long)n);
    op("assign", (long)n); total("assign", n, steps([&] { *d = *(const C *)c; }), 2 * (long)n); removal();
    total("destroy", n, steps([&] { d->~C(); }), (long)n); free((void *)d);
}
template <class C> static C *make() { C *c = 0; void *p = malloc(sizeof(C)); LIB(c = new (p) C); return c; }
template <class C> static void done(C *c, size_t n) { op("destroy", (long)n); total("destroy", n, steps([&] { c->~C(); }), (long)n); free((void *)c); note_size(n); note_state(mix(n, worst_)); worst_ = 0; }

// what a container offers at its ends
enum { FRONT = 1, BACK = 2, PUSHF = 4, PUSHB = 8, POPF = 16, POPB = 32, NODE = 64 };
template <class C> struct Seq1 {            // push_back, push_front, ...
    static void pushb(C &c, int v) { c.push_back(v); } static void popb(C &c) { c.pop_back(); }
};
struct VecOps { enum { what = PUSHB | POPB }; template <class C> static void push(C &c, bool, int v) { c.push_back(v); } template <class C> static void pop(C &c, bool) { c.pop_back(); } };
struct StrOps { enum { what = PUSHB }; template <class C> static void push(C &c, bool, int v) { c.push_back('a' + (char)(v & 15)); } template <class C> static void pop(C &, bool) {} };
struct DeqOps { enum { what = PUSHB | PUSHF | POPB | POPF }; template <class C> static void push(C &c, bool f, int v) { if (f) c.push_front(v); else c.push_back(v); } template <class C> static void pop(C &c, bool f) { if (f) c.pop_front(); else c.pop_back(); } };
struct DllOps : DeqOps { enum { what = DeqOps::what | NODE }; };
struct SllOps { enum { what = PUSHB | PUSHF | POPF | NODE }; template <class C> static void push(C &c, bool f, int v) { if (f) c.push_front(v); else c.push_back(v); } template <class C> static void pop(C &c, bool) { c.pop_front(); } };
struct QueOps { enum { what = PUSHB | POPF }; template <class C> static void push(C &c, bool, int v) { c.push(v); } template <class C> static void pop(C &c, bool) { c.pop(); } };

template <class C, class Ops, class More> static void seq(Chooser &ch) {
    C *c = make<C>(); size_t n = 0, top = size_of(ch); const bool both = Ops::what & PUSHF; int v = 0; unsigned bias = ch.choose(3);
    auto side = [&]() { return both && (bias == 0 ? true : bias == 1 ? false : (v & 1) != 0); };
    auto probes = [&]() {
        const C &q = *c; FLAT("size", q.size()); FLAT("empty", q.empty()); if (!n) return;
        FLAT("front", q.front()); FLAT("back", q.back()); FLAT("begin", q.begin() != q.end()); FLAT("step", *++(q.begin()));
        More::look(*c, n, ch); EXPECT_EQ(C_MODEL, "size", q.size(), n);
    };
    auto grow = [&](size_t k) { op("push", (long)k, (long)n); long s = 0, w = 0; for (size_t i = 0; i < k; i++) { bool f = side(); v++; long a = steps([&] { Ops::push(*c, f, v); }); s += a; if (a > w) w = a; n++; } total("push", n, s, (long)k); if (Ops::what & NODE) flat("push", n, w); };
    auto shrink = [&](size_t k) { if (!(Ops::what & (POPF | POPB))) return; op("pop", (long)k, (long)n); removal(); long s = 0, w = 0; size_t q = k; for (; q && n; q--) { bool f = side(); v++; long a = steps([&] { Ops::pop(*c, f); }); s += a; if (a > w) w = a; n--; } total("pop", n, s, (long)k); if (Ops::what & NODE) flat("pop", n, w); };
    probes(); grow(top); probes(); if (n < 80000) walk(*(const C *)c, n);
    if (O().opmask & OG_MOVE) moves(c, n); if (O().opmask & OG_COPY && n < 80000) copies(c, n);
    bias = ch.choose(3); shrink(n / 2 + ch.choose((unsigned)n / 2 + 1)); probes(); bias = ch.choose(3); grow(1 + n / 4); probes();
    if (ch.choose(2)) { shrink(n); probes(); grow(3); probes(); }
    done(c, n);
}
struct LookVec { template <class C> static void look(C &c, size_t n, Chooser &ch) { const C &q = c; int k = (int)ch.choose((unsigned)n); FLAT("capacity", q.capacity()); FLAT("index", q[k]); FLAT("index", q[-1 - k]); FLAT("index", c[k]); FLAT("index", c[(int)n - 1]); FLAT("step-back", *--(q.end())); FLAT("plus", *(q.begin() + k)); FLAT("minus", *(q.end() - (k + 1))); FLAT("difference", q.end() - q.begin()); } };
struct LookStr { template <class C> static void look(C &c, size_t n, Chooser &ch) { LookVec::look(c, n, ch); const C &q = c; FLAT("c_str", *q.c_str()); } };
struct LookDeq { template <class C> static void look(C &c, size_t n, Chooser &ch) { const C &q = c; FLAT("capacity", q.capacity()); FLAT("step-back", *--(q.end())); int k = (int)ch.choose((unsigned)(n < 2000 ? n : 2000)); op("plus", k); total("plus", n, steps([&] { sink = sink + *(q.begin() + k); }), k); total("minus", n, steps([&] { sink = sink + *(q.end() - (k + 1)); }), k); total("index", n, steps([&] { sink = sink + q[k]; }), k); total("index", n, steps([&] { sink = sink + q[-1 - k]; }), k); } };
struct LookDll { template <class C> static void look(C &c, size_t n, Chooser &) { const C &q = c; FLAT("step-back", *--(q.end())); } };
struct LookNo { template <class C> static void look(C &, size_t, Chooser &) {} };

template <class C, bool X> struct Ext { static long get(const C &c) { return c.getXValue(); } };
template <class C> struct Ext<C, false> { static long get(const C &) { return 0; } };
template <class C, bool X> static void stack_(Chooser &ch) {
    C *c = make<C>(); size_t n = 0, top = size_of(ch); unsigned pat = ch.choose(3); int v = 0;
    auto probes = [&]() { const C &q = *c; FLAT("empty", q.empty()); if (n) { FLAT("top", q.top()); FLAT("extreme", (Ext<C, X>::get(q))); FLAT("begin", q.begin() != q.end()); } };
    auto grow = [&](size_t k) { op("push", (long)k, (long)n); long s = 0; while (k--) { v++; int x = pat == 0 ? v : pat == 1 ? -v : (int)((unsigned)v * 2654435761u >> 10); s += steps([&] { c->push(x); }); n++; } total("push", n, s, v); };
    auto shrink = [&](size_t k) { op("pop", (long)k, (long)n); removal(); long s = 0; size_t k0 = k; while (k-- && n) { s += steps([&] { c->pop(); }); n--; } total("pop", n, s, (long)k0); };
    probes(); grow(top); probes(); if (O().opmask & OG_MOVE) moves(c, n); if (O().opmask & OG_COPY && n < 80000) copies(c, 2 * n);
    shrink(n / 2); probes(); grow(1 + n / 3); probes(); if (ch.choose(2)) { shrink(n); probes(); grow(3); }
    done(c, 2 * n);
}
static void heap_(Chooser &ch) {
    typedef dstruct::Heap<int, dstruct::less<int>, Plain> C; C *c = make<C>(); size_t n = 0, top = size_of(ch) / 2 + 1; unsigned pat = ch.choose(3); int v = 0;
    auto probes = [&]() { const C &q = *c; FLAT("size", q.size()); FLAT("empty", q.empty()); FLAT("capacity", q.capacity()); if (n) { FLAT("top", q.top()); FLAT("begin", q.begin() != q.end()); FLAT("index", (*c)[1 + (int)ch.choose((unsigned)n)]); } };
    auto grow = [&](size_t k) { op("push", (long)k, (long)n); long s = 0, k0 = (long)k; while (k--) { v++; int x = pat == 0 ? v : pat == 1 ? -v : (int)((unsigned)v * 2654435761u >> 10); s += steps([&] { c->push(x); }); n++; } total("push", n, s, k0 * (1 + lg(n) / 4)); };
    auto shrink = [&](size_t k) { op("pop", (long)k, (long)n); removal(); long s = 0; size_t k0 = k, n0 = n; while (k-- && n) { s += steps([&] { c->pop(); }); n--; } total("pop", n0, s, (long)k0 * (1 + lg(n0) / 4)); };
    probes(); grow(top); probes(); if (O().opmask & OG_MOVE) moves(c, n); if (O().opmask & OG_COPY && n < 80000) copies(c, n);
    shrink(n / 2); probes(); grow(1 + n / 3); probes(); if (ch.choose(2)) { shrink(n); probes(); grow(3); }
    done(c, n);
}
template <class C> static auto tall(const C &c, size_t n, int) -> decltype((void)c.height()) { FLAT("height", c.height()); }
template <class C> static void tall(const C &, size_t, long) {}
// keys are pushed in order (AVL only), against it or in a scattered order; distinct by construction
template <class C, bool AVL> static void tree_(Chooser &ch) {
    C *c = make<C>(); size_t top = size_of(ch); if (!AVL && top > 60000) top = 60000; if (top > 120000) top = 120000; unsigned pat = AVL ? ch.choose(3) : 2;
    auto key = [&](size_t i) { return pat == 0 ? (int)i * 2 : pat == 1 ? -(int)i * 2 : (int)((unsigned)(i * 2) * 2654435761u); };
    size_t n = 0, lo = 0; const long slack = AVL ? 1 : 3;
    auto lim = [&](const char *what, long s) { EXPECT(C_COST, what, s <= slack * (ONCE + LEVEL * (long)lg(n)), "%s takes %ld steps with %zu elements", what, s, n); };
    auto probes = [&]() {
        const C &q = *c; FLAT("size", q.size()); FLAT("empty", q.empty()); FLAT("capacity", q.capacity()); tall(q, n, 0); FLAT("end", q.end() == q.end()); if (!n) return;
        op("begin"); lim("begin", steps([&] { sink = sink + *q.begin(); })); for (int i = 0; i < 4; i++) { int k = key(lo + ch.choose((unsigned)n)); op("find", k); lim("find", steps([&] { sink = sink + *q.find(k); })); k ^= 1; op("find", k); lim("find-absent", steps([&] { sink = sink + (q.find(k) == q.end()); })); }
        lim("preorder", steps([&] { sink = sink + *q.begin(C::TraversalType::PreOrder); })); lim("postorder", steps([&] { sink = sink + *q.begin(C::TraversalType::PostOrder); }));
    };
    auto grow = [&](size_t k) { op("push", (long)k, (long)n); long w = 0; while (k--) { int x = key(lo + n); long a = steps([&] { c->push(x); }); n++; if (a > w) w = a; } lim("push", w); };
    auto shrink = [&](size_t k) { op("pop", (long)k, (long)n); removal(); long w = 0; while (k-- && n) { int x = key(lo); lo++; long a = (k & 1) ? steps([&] { c->pop(x); }) : steps([&] { c->erase(c->find(x)); }); if (a > w) w = a; n--; } lim("pop", w); };
    probes(); grow(top); probes(); if (n < 80000) walk(*(const C *)c, n);
    if (O().opmask & OG_MOVE) moves(c, n); if (O().opmask & OG_COPY && n < 80000) copies(c, n);
    shrink(n / 2); probes(); if (n < 80000) { walk(*(const C *)c, n); } grow(1 + n / 4); probes(); if (ch.choose(2)) { shrink(n); probes(); grow(3); }
    op("clear", (long)n); removal(); total("clear", n, steps([&] { c->clear(); }), (long)n); n = 0; probes(); done(c, 0);
}
static void map_(Chooser &ch) {
    typedef dstruct::Map<int, int, dstruct::less<int>, dstruct::AVLTree<dstruct::KeyValue<const int, int>, dstruct::KVCMPKey<dstruct::KeyValue<const int, int>, dstruct::less<int> >, Plain> > C;
    C *c = make<C>(); size_t top = size_of(ch), n = 0, lo = 0; if (top > 120000) top = 120000; unsigned pat = ch.choose(3);
    auto key = [&](size_t i) { return pat == 0 ? (int)i * 2 : pat == 1 ? -(int)i * 2 : (int)((unsigned)(i * 2) * 2654435761u); };
    auto probes = [&]() {
        const C &q = *c; FLAT("size", q.size()); FLAT("empty", q.empty()); FLAT("end", q.end() == q.end()); if (!n) return; levels("begin", n, steps([&] { sink = sink + q.begin()->value; }));
        for (int i = 0; i < 4; i++) { int k = key(lo + ch.choose((unsigned)n)); op("look", k); levels("find", n, steps([&] { sink = sink + q.find(k)->value; })); levels("index", n, steps([&] { sink = sink + q[k]; })); levels("write", n, steps([&] { (*c)[k] = i; })); k ^= 1; levels("find-absent", n, steps([&] { sink = sink + (q.find(k) == q.end()); })); }
    };
    auto grow = [&](size_t k) { op("push", (long)k, (long)n); long w = 0; while (k--) { int x = key(lo + n); long a = steps([&] { (*c)[x] = 1; }); n++; if (a > w) w = a; } levels("insert", n, w); };
    auto shrink = [&](size_t k) { op("pop", (long)k, (long)n); removal(); long w = 0; while (k-- && n) { int x = key(lo); lo++; long a = (k & 1) ? steps([&] { c->pop(x); }) : steps([&] { auto it = c->find(x); c->erase(it); }); if (a > w) w = a; n--; } levels("pop", n, w); };
    probes(); grow(top); probes(); if (n < 80000) walk(*(const C *)c, n); if (O().opmask & OG_MOVE) moves(c, n); if (O().opmask & OG_COPY && n < 80000) copies(c, n);
    shrink(n / 2); probes(); grow(1 + n / 4); probes(); if (ch.choose(2)) { shrink(n); probes(); grow(3); }
    done(c, n);
}
static void uf_(Chooser &ch) {
    typedef dstruct::DisjointSet<Plain> C; size_t n = size_of(ch); C *c = 0; void *p = malloc(sizeof(C)); op("construct", (long)n); total("construct", n, steps([&] { c = new (p) C((int)n); }), (long)n);
    const C &q = *c; unsigned pat = ch.choose(6);
    auto one = [&](int a) { op("find", a); levels("find", n, steps([&] { sink = sink + c->find(a); })); };
    auto probes = [&]() { FLAT("size", q.size()); FLAT("empty", q.empty()); op("count"); total("count", n, steps([&] { sink = sink + (long)q.count(); }), (long)n); for (int i = 0; i < 6; i++) { int a = (int)ch.choose((unsigned)n), b = (int)ch.choose((unsigned)n); op("find", a, b); levels("find", n, steps([&] { sink = sink + c->find(a); })); levels("connected", n, steps([&] { sink = sink + c->connected(a, b); })); } };
    probes(); long w = 0; op("connect", (long)n, pat);
    auto join = [&](int a, int b) { long s = steps([&] { c->connect(a, b); }); if (s > w) w = s; };
    if (pat == 5) { for (size_t d = 1; d < n; d *= 2) for (size_t i = 0; i + d < n; i += 2 * d) join((int)i, (int)(i + d)); }   // equal sets are joined
    else for (size_t i = 1; i < n; i++) { int a = pat == 0 || pat == 3 ? (int)i - 1 : pat == 1 || pat == 4 ? 0 : (int)ch.choose((unsigned)i), b = (int)i; if (pat >= 3) join(b, a); else join(a, b); }
    levels("connect", n, w); one(0); one((int)n - 1); one((int)n / 2);
    probes(); if (O().opmask & OG_MOVE) { C *d = 0; void *m = malloc(sizeof(C)); op("move"); flat("move", n, steps([&] { d = new (m) C(dstruct::move(*c)); })); flat("move-assign", n, steps([&] { *c = dstruct::move(*d); })); flat("destroy-moved-from", n, steps([&] { d->~C(); })); free(m); } probes();
    done(c, n);
}
static void array_(Chooser &ch) {
    typedef dstruct::Array<int, 100000> C; size_t n = 100000; C *c = 0; void *p = malloc(sizeof(C)); op("construct"); total("construct", n, steps([&] { c = new (p) C(7); }), (long)n);
    for (int i = 0; i < 5; i++) { const C &q = *c; FLAT("size", q.size()); FLAT("empty", q.empty()); FLAT("front", q.front()); FLAT("back", q.back()); LookVec::look(*c, n, ch); }
    done(c, n);
}
int main(int argc, char **argv) {
    using namespace dstruct; typedef Plain P;
    add("steps", "steps-vector", 14, seq<Vector<int, P>, VecOps, LookVec>); add("steps", "steps-string", 14, seq<BasicString<char, P>, StrOps, LookStr>);
    add("steps", "steps-slist", 14, seq<SinglyLinkedList<int, P>, SllOps, LookNo>); add("steps", "steps-dlist", 14, seq<DoublyLinkedList<int, P>, DllOps, LookDll>);
    add("steps", "steps-deque32", 14, seq<DoubleEndedQueue<int, 32, P>, DeqOps, LookDeq>); add("steps", "steps-deque4", 10, seq<DoubleEndedQueue<int, 4, P>, DeqOps, LookDeq>); add("steps", "steps-deque1", 10, seq<DoubleEndedQueue<int, 1, P>, DeqOps, LookDeq>);
    add("steps", "steps-queue-deque", 8, seq<adapter::Queue<int, DoubleEndedQueue<int, 32, P> >, QueOps, LookNo>); add("steps", "steps-queue-slist", 8, seq<adapter::Queue<int, SinglyLinkedList<int, P> >, QueOps, LookNo>); add("steps", "steps-queue-dlist", 8, seq<adapter::Queue<int, DoublyLinkedList<int, P> >, QueOps, LookNo>);
    add("steps", "steps-stack-vector", 8, stack_<adapter::Stack<int, Vector<int, P> >, false>); add("steps", "steps-stack-deque", 8, stack_<adapter::Stack<int, DoubleEndedQueue<int, 8, P> >, false>); add("steps", "steps-stack-dlist", 8, stack_<adapter::Stack<int, DoublyLinkedList<int, P> >, false>);
    add("steps", "steps-minstack", 10, stack_<stack::XValueStack<int, less<int>, adapter::Stack<int, Vector<int, P> > >, true>); add("steps", "steps-maxstack", 10, stack_<stack::XValueStack<int, greater<int>, adapter::Stack<int, DoubleEndedQueue<int, 8, P> > >, true>);
    add("steps", "steps-heap", 12, heap_); add("steps", "steps-avl", 14, tree_<AVLTree<int, less<int>, P>, true>); add("steps", "steps-bst", 10, tree_<tree::BinarySearchTree<int, less<int>, P>, false>);
    add("steps", "steps-map", 12, map_); add("steps", "steps-unionfind", 12, uf_); add("steps", "steps-array", 2, array_);
    return vh_main(argc, argv);
}
