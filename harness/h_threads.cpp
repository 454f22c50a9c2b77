// Distinct objects in distinct threads, and concurrent readers of shared const objects.
// The deciding oracle is ThreadSanitizer; every thread also checks its results against a model of its own.
// Built in its own translation unit without the monitoring core, whose statistics are not thread safe.
#define VH_NS alone
#include "config_ops.hpp"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <signal.h>
#include <unistd.h>
#include <time.h>
#include <pthread.h>
#include <atomic>
#include <vector>
#include <deque>
#include <map>
#include <set>
#include <string>
#include <algorithm>
#include <functional>

extern "C" void __assert_fail(const char *expr, const char *file, unsigned line, const char *) noexcept {
    const char *b = strrchr(file, '/');
    printf("ASSERT %s:%u %s config=threads\n", b ? b + 1 : file, line, expr); fflush(stdout); _Exit(14);
}
static uint64_t g_seed = 1; static unsigned g_classes_model = 1; static const char *g_phase = "?";
static std::atomic<long> g_checks(0), g_ops(0);
static void bad(const char *what, long got, long want) {
    if (!g_classes_model) return;
    char b[300]; int n = snprintf(b, sizeof b, "VIOL cls=model key=%s :: config=threads-%s a thread sees %ld, its own model says %ld\n", what, g_phase, got, want);
    if (write(1, b, (size_t)n)) {} _Exit(10);
}
struct Rng { uint64_t s; Rng(uint64_t x) : s(x) {} uint64_t next() { uint64_t z = (s += 0x9E3779B97F4A7C15ull); z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31); } unsigned below(unsigned n) { return (unsigned)(next() % n); } };

// the interleaving of the operations of one round, recorded without creating happens-before edges
enum { LOGN = 1 << 16 };
static unsigned char g_log[LOGN]; static std::atomic<unsigned> g_logpos(0);
static __attribute__((no_sanitize("thread"))) void logop(int tid) { unsigned p = g_logpos.fetch_add(1, std::memory_order_relaxed); if (p < LOGN) ((volatile unsigned char *)g_log)[p] = (unsigned char)tid; }
struct Ctx { int tid; Rng r; long checks, ops; Ctx(int t, uint64_t s) : tid(t), r(s), checks(0), ops(0) {} ~Ctx() { g_checks += checks; g_ops += ops; } void op() { ops++; logop(tid); if (r.below(16) == 0) sched_yield(); } };
#define EQ(what, got, want) do { c.checks++; long a_ = (long)(got), b_ = (long)(want); if (a_ != b_) bad(what, a_, b_); } while (0)

struct Obj { int k; char *own; Obj() : k(-1), own((char *)malloc(8)) { own[0] = 7; } Obj(int x) : k(x), own((char *)malloc(8)) { own[0] = (char)x; } Obj(const Obj &o) : k(o.k), own((char *)malloc(8)) { own[0] = o.own[0]; } Obj &operator=(const Obj &o) { k = o.k; own[0] = o.own[0]; return *this; } ~Obj() { free(own); }
    bool operator<(const Obj &o) const { return k < o.k; } bool operator>(const Obj &o) const { return k > o.k; } bool operator==(const Obj &o) const { return k == o.k; } bool operator!=(const Obj &o) const { return k != o.k; } };

typedef dstruct::AVLTree<Obj, dstruct::less<Obj>, dstruct::Alloc> AvlT;
template <class C> static void seq_ops(Ctx &c, C &x, std::deque<int> &m, int n) { // push_back / pop_back containers
    while (n--) { c.op(); if (c.r.below(5) < 3) { int k = (int)c.r.below(1000); x.push_back(Obj(k)); m.push_back(k); } else if (!m.empty()) { x.pop_back(); m.pop_back(); } EQ("size", x.size(), m.size()); }
    size_t p = 0; for (auto it = x.begin(); it != x.end(); it++, p++) { EQ("iter", it->k, p < m.size() ? m[p] : -99); } EQ("iter", p, m.size());
}
static void work_vector(Ctx &c) { dstruct::Vector<Obj> v; std::deque<int> m; seq_ops(c, v, m, 60); dstruct::Vector<Obj> w = v; w.push_back(Obj(5)); EQ("copy", v.size(), m.size()); v = dstruct::move(w); EQ("move", v.size(), m.size() + 1); v.clear(); EQ("clear", v.size(), 0); }
static void work_dlist(Ctx &c) { dstruct::DLinkedList<Obj> v; std::deque<int> m; seq_ops(c, v, m, 60); dstruct::DLinkedList<Obj> w = v; EQ("copy", w.size(), m.size()); while (!m.empty()) { c.op(); EQ("front", v.front().k, m[0]); v.pop_front(); m.pop_front(); } }
static void work_slist(Ctx &c) { dstruct::SLinkedList<Obj> v; std::deque<int> m; for (int i = 0; i < 60; i++) { c.op(); unsigned r = c.r.below(5); int k = (int)c.r.below(999); if (r < 2) { v.push_back(Obj(k)); m.push_back(k); } else if (r < 3) { v.push_front(Obj(k)); m.push_front(k); } else if (!m.empty()) { EQ("front", v.front().k, m[0]); v.pop_front(); m.pop_front(); } EQ("size", v.size(), m.size()); } }
static void work_deque(Ctx &c) { dstruct::Deque<Obj, 4> v; std::deque<int> m; seq_ops(c, v, m, 60); for (int i = 0; i < 30; i++) { c.op(); int k = (int)c.r.below(999); if (c.r.below(2)) { v.push_front(Obj(k)); m.push_front(k); } else if (!m.empty()) { v.pop_front(); m.pop_front(); } if (!m.empty()) { EQ("front", v.front().k, m[0]); EQ("back", v.back().k, m.back()); } } }
static void work_queue(Ctx &c) { dstruct::Queue<int> q; dstruct::Stack<int> s; std::deque<int> m, t; for (int i = 0; i < 80; i++) { c.op(); int k = (int)c.r.below(999); if (c.r.below(5) < 3) { q.push(k); m.push_back(k); s.push(k); t.push_back(k); } else if (!m.empty()) { EQ("front", q.front(), m[0]); q.pop(); m.pop_front(); EQ("top", s.top(), t.back()); s.pop(); t.pop_back(); } } }
static void work_heap(Ctx &c) { dstruct::MinHeap<Obj> h; dstruct::PriorityQueue<int, dstruct::greater<int> > g; std::multiset<int> m; for (int i = 0; i < 80; i++) { c.op(); int k = (int)c.r.below(99); if (c.r.below(5) < 3) { h.push(Obj(k)); g.push(k); m.insert(k); } else if (!m.empty()) { EQ("top", h.top().k, *m.begin()); h.pop(); m.erase(m.begin()); g = dstruct::PriorityQueue<int, dstruct::greater<int> >(); for (int x : m) g.push(x); } EQ("size", h.size(), m.size()); if (!m.empty()) EQ("top", g.top(), *m.rbegin()); }
    int a[20]; for (int i = 0; i < 20; i++) a[i] = (int)c.r.below(50); dstruct::PrimitiveIterator<int> b(a), e(a + 20); dstruct::MinHeap<int>::sort(b, e); for (int i = 1; i < 20; i++) EQ("sort", a[i - 1] <= a[i], 1); }
static void work_xstack(Ctx &c) { dstruct::MinStack<int> x; std::vector<int> m; for (int i = 0; i < 60; i++) { c.op(); if (c.r.below(5) < 3) { int k = (int)c.r.below(9); x.push(k); m.push_back(k); } else if (!m.empty()) { x.pop(); m.pop_back(); } if (!m.empty()) EQ("extreme", x.getXValue(), *std::min_element(m.begin(), m.end())); } }
template <class T> static void work_tree(Ctx &c, bool avl) { T t; std::set<int> m; for (int i = 0; i < 80; i++) { c.op(); int k = (int)c.r.below(40); bool has = m.count(k) > 0; if (c.r.below(5) < 3) { if (avl && has) continue; t.push(Obj(k)); m.insert(k); } else { t.pop(Obj(k)); m.erase(k); } EQ("size", t.size(), m.size()); EQ("find", t.find(Obj(k)) != t.end(), m.count(k)); } auto s = m.begin(); for (auto it = t.begin(); it != t.end(); ++it) { EQ("iter", it->k, s == m.end() ? -99 : *s); ++s; } T u = t; EQ("copy", u.size(), m.size()); long n = 0; u.traversal([&](const auto &) { n++; }, (typename T::TraversalType)0); EQ("traversal", n, m.size()); }
static void work_map(Ctx &c) { dstruct::Map<int, Obj> x; std::map<int, int> m; for (int i = 0; i < 60; i++) { c.op(); int k = (int)c.r.below(30); if (c.r.below(3)) { x[k] = Obj(i); m[k] = i; } else { x.pop(k); m.erase(k); } EQ("size", x.size(), m.size()); } for (auto it = x.begin(); it != x.end(); ++it) EQ("value", it->value.k, m[it->key]); }
static void work_string(Ctx &c) { dstruct::String s; std::string m; for (int i = 0; i < 80; i++) { c.op(); char k = (char)('a' + c.r.below(26)); if (c.r.below(4)) { s.push_back(k); m.push_back(k); } else { s += dstruct::String("pq"); m += "pq"; } EQ("string", strcmp(s.c_str(), m.c_str()), 0); } dstruct::String t = s; t += s; EQ("copy", s.size(), m.size()); EQ("append", t.size(), 2 * m.size()); }
static void work_uf(Ctx &c) { dstruct::UFSet u(20); int l[20]; for (int i = 0; i < 20; i++) l[i] = i; for (int i = 0; i < 40; i++) { c.op(); int a = (int)c.r.below(20), b = (int)c.r.below(20); u.connect(a, b); int x = l[a], y = l[b]; for (int q = 0; q < 20; q++) if (l[q] == x) l[q] = y; a = (int)c.r.below(20); b = (int)c.r.below(20); EQ("connected", u.connected(a, b), l[a] == l[b]); } }
static void work_static(Ctx &c) { dstruct::Array<int, 8> a; for (int i = 0; i < 8; i++) a[i] = i + c.tid; for (int i = 0; i < 8; i++) { c.op(); EQ("array", a[i], i + c.tid); } int s = 0; dstruct::algorithm::for_each(a.begin(), a.end(), [&](int v) { s += v; }); EQ("for_each", s, 28 + 8 * c.tid);
    typedef dstruct::EListNode<int> N; N n[6]; N head; N::init(&head); for (int i = 0; i < 6; i++) { N::init(&n[i]); n[i].data = i; N::add(&head, &n[i]); c.op(); } int cnt = 0; for (auto *l = N::to_link(&head)->next; l != N::to_link(&head); l = l->next) cnt++; EQ("embedded", cnt, 6); }
typedef void (*Work)(Ctx &);
static void wbst(Ctx &c) { work_tree<dstruct::BSTree<Obj> >(c, false); }
static void wavl(Ctx &c) { work_tree<AvlT >(c, true); }
static const Work WORK[] = { work_vector, work_dlist, work_slist, work_deque, work_queue, work_heap, work_xstack, wbst, wavl, work_map, work_string, work_uf, work_static };
enum { NW = sizeof WORK / sizeof WORK[0] };

// ---- shared objects, only read
struct Shared {
    dstruct::Vector<Obj> v; dstruct::DLinkedList<Obj> dl; dstruct::SLinkedList<Obj> sl; dstruct::Deque<Obj, 4> dq; dstruct::Queue<int> q; dstruct::Stack<int> st; dstruct::MinHeap<Obj> h; dstruct::MaxStack<int> x; dstruct::BSTree<Obj> b; AvlT a; dstruct::Map<int, Obj> m; dstruct::String s; dstruct::Array<int, 5> ar; dstruct::UFSet u;
    std::vector<int> seq; std::set<int> set;
    Shared(Rng &r) : u(9) { int n = 1 + (int)r.below(30); for (int i = 0; i < n; i++) { int k = (int)r.below(100); seq.push_back(k); v.push_back(Obj(k)); dl.push_back(Obj(k)); sl.push_back(Obj(k)); dq.push_back(Obj(k)); q.push(k); st.push(k); h.push(Obj(k)); x.push(k); s.push_back((char)('a' + k % 26)); if (set.insert(k).second) { b.push(Obj(k)); a.push(Obj(k)); m[k] = Obj(k + 1); } } for (int i = 0; i < 5; i++) ar[i] = i; u.connect(1, 2); }
};
template <class C> static void rd(Ctx &c, const C &x, const std::vector<int> &m) { size_t p = 0; for (auto it = x.begin(); it != x.end(); it++, p++) EQ("shared-iter", it->k, p < m.size() ? m[p] : -99); EQ("shared-size", x.size(), m.size()); EQ("shared-iter", p, m.size()); EQ("shared-front", x.front().k, m[0]); EQ("shared-back", x.back().k, m.back()); EQ("shared-empty", x.empty(), 0); C y(x); EQ("shared-copy", y.size(), m.size()); }
static void read_all(Ctx &c, const Shared &s) {
    unsigned r = c.r.below(12); c.op();
    const std::vector<int> sorted(s.set.begin(), s.set.end());
    switch (r) {
    case 0: rd(c, s.v, s.seq); for (size_t i = 0; i < s.seq.size(); i++) EQ("shared-index", s.v[(int)i].k, s.seq[i]); break;
    case 1: rd(c, s.dl, s.seq); break; case 2: rd(c, s.sl, s.seq); break; case 3: rd(c, s.dq, s.seq); break;
    case 4: EQ("shared-queue", s.q.front(), s.seq[0]); EQ("shared-queue", s.q.back(), s.seq.back()); { size_t p = 0; for (auto it = s.q.begin(); it != s.q.end(); it++, p++) EQ("shared-queue", *it, s.seq[p]); } EQ("shared-stack", s.st.top(), s.seq.back()); break;
    case 5: EQ("shared-heap", s.h.top().k, sorted[0]); { long n = 0; for (auto it = s.h.begin(); it != s.h.end(); it++) n++; EQ("shared-heap", n, s.seq.size()); dstruct::MinHeap<Obj> y(s.h); y.pop(); } break;
    case 6: EQ("shared-xstack", s.x.getXValue(), sorted.back()); EQ("shared-xstack", s.x.top(), s.seq.back()); { dstruct::MaxStack<int> y(s.x); y.pop(); } break;
    case 7: { size_t p = 0; for (auto it = s.b.begin(); it != s.b.end(); ++it, p++) EQ("shared-bst", it->k, sorted[p]); int k = (int)c.r.below(100); EQ("shared-bst", s.b.find(Obj(k)) != s.b.end(), s.set.count(k)); dstruct::BSTree<Obj> y(s.b); EQ("shared-bst", y.size(), sorted.size()); break; }
    case 8: { size_t p = 0; for (auto it = s.a.begin(); it != s.a.end(); ++it, p++) EQ("shared-avl", it->k, sorted[p]); int k = (int)c.r.below(100); EQ("shared-avl", s.a.find(Obj(k)) != s.a.end(), s.set.count(k)); EQ("shared-avl", s.a.height() > 0, 1); long n = 0; s.a.traversal([&](const auto &) { n++; }); EQ("shared-avl", n, sorted.size()); break; }
    case 9: { for (int k : sorted) EQ("shared-map", s.m[k].k, k + 1); size_t p = 0; for (auto it = s.m.begin(); it != s.m.end(); ++it, p++) EQ("shared-map", it->key, sorted[p]); break; }
    case 10: EQ("shared-string", strlen(s.s.c_str()), s.seq.size()); EQ("shared-string", s.s.size(), s.seq.size()); { dstruct::String y(s.s); y += s.s; EQ("shared-string", y.size(), 2 * s.seq.size()); long n = 0; for (auto it = s.s.begin(); it != s.s.end(); it++) n++; EQ("shared-string", n, s.seq.size()); } break;
    default: for (int i = 0; i < 5; i++) EQ("shared-array", s.ar[i], i); EQ("shared-array", s.ar.size(), 5); EQ("shared-uf", s.u.count(), 8); break;
    }
}

// the rest of the const interface, and objects without elements (never filled, cleared, moved from)
struct Hollow {
    dstruct::Vector<Obj> v; dstruct::DLinkedList<Obj> dl; dstruct::SLinkedList<Obj> sl; dstruct::Deque<Obj, 4> dq; dstruct::Queue<int> q; dstruct::Stack<int> st; dstruct::MinHeap<Obj> h; dstruct::MaxStack<int> x; dstruct::BSTree<Obj> b; AvlT a; dstruct::Map<int, Obj> m; dstruct::String s;
};
template <class C> static void hollow_range(Ctx &c, const C &x) { EQ("shared-hollow", x.empty(), 1); long n = 0; for (auto it = x.begin(); it != x.end(); ++it) n++; EQ("shared-hollow", n, 0); C y(x); EQ("shared-hollow", y.empty(), 1); y = x; EQ("shared-hollow", y.empty(), 1); }
static void read_hollow(Ctx &c, const Hollow &o) {
    c.op(); switch (c.r.below(4)) {
    case 0: hollow_range(c, o.v); EQ("shared-hollow", o.v.size(), 0); hollow_range(c, o.dl); EQ("shared-hollow", o.dl.size(), 0); hollow_range(c, o.sl); EQ("shared-hollow", o.sl.size(), 0); break;
    case 1: hollow_range(c, o.dq); EQ("shared-hollow", o.dq.size(), 0); hollow_range(c, o.q); EQ("shared-hollow", o.q.size(), 0); hollow_range(c, o.st); EQ("shared-hollow", o.st.size(), 0); break;
    case 2: hollow_range(c, o.h); EQ("shared-hollow", o.h.size(), 0); hollow_range(c, o.x); hollow_range(c, o.s); EQ("shared-hollow", o.s.size(), 0); EQ("shared-hollow", o.s == "", 1); EQ("shared-hollow", strlen(o.s.c_str()), 0); break;
    default: hollow_range(c, o.b); EQ("shared-hollow", o.b.size(), 0); EQ("shared-hollow", o.b.find(Obj(1)) != o.b.end(), 0); hollow_range(c, o.a); EQ("shared-hollow", o.a.size() + o.a.height(), 0); EQ("shared-hollow", o.a.find(Obj(1)) != o.a.end(), 0); { const dstruct::Map<int, Obj> &m = o.m; long n = 0; for (auto it = m.begin(); it != m.end(); ++it) n++; EQ("shared-hollow", n + (long)m.size(), 0); EQ("shared-hollow", m.empty(), 1); EQ("shared-hollow", m.find(1) != m.end(), 0); dstruct::Map<int, Obj> y(m); EQ("shared-hollow", y.size(), 0); } break;
    }
}
static void read_rest(Ctx &c, const Shared &s) {
    const std::vector<int> sorted(s.set.begin(), s.set.end()); int n = (int)s.seq.size(), i = (int)c.r.below((unsigned)n); c.op();
    switch (c.r.below(6)) {
    case 0: EQ("shared-index", s.v[i - n].k, s.seq[i]); EQ("shared-index", s.v.front().k, s.seq[0]); EQ("shared-index", s.v.back().k, s.seq[n - 1]); EQ("shared-capacity", s.v.capacity() >= s.v.size(), 1); EQ("shared-index", s.dq[i].k, s.seq[i]); EQ("shared-index", s.dq[i - n].k, s.seq[i]); EQ("shared-capacity", s.dq.capacity() >= s.dq.size(), 1); EQ("shared-index", (s.dq.begin() + i)->k, s.seq[i]); EQ("shared-index", (s.dq.end() - (n - i))->k, s.seq[i]); break;
    case 1: EQ("shared-string", s.s[i], 'a' + s.seq[i] % 26); EQ("shared-string", s.s.front(), 'a' + s.seq[0] % 26); EQ("shared-string", s.s.back(), 'a' + s.seq[n - 1] % 26); EQ("shared-string", s.s == s.s, 1); EQ("shared-string", s.s != s.s, 0); EQ("shared-string", s.s == s.s.c_str(), 1); EQ("shared-string", (s.s + "xy").size(), n + 2); EQ("shared-string", (s.s + s.s).size(), 2 * n); EQ("shared-string", s.s.empty(), 0); EQ("shared-capacity", s.s.capacity() >= s.s.size(), 1); break;
    case 2: EQ("shared-queue", s.q.size(), n); EQ("shared-queue", s.q.empty(), 0); EQ("shared-stack", s.st.size(), n); EQ("shared-stack", s.st.empty(), 0); { int p = 0; for (auto it = s.st.begin(); it != s.st.end(); ++it, p++) EQ("shared-stack", *it, s.seq[p]); p = 0; for (auto it = s.x.begin(); it != s.x.end(); ++it, p++) EQ("shared-xstack", *it, s.seq[p]); } EQ("shared-xstack", s.x.empty(), 0); { dstruct::Queue<int> y(s.q); y.pop(); EQ("shared-queue", y.size(), n - 1); dstruct::Stack<int> z(s.st); z.pop(); EQ("shared-stack", z.size(), n - 1); } break;
    case 3: EQ("shared-heap", s.h.size(), n); EQ("shared-heap", s.h.empty(), 0); EQ("shared-heap", s.h.capacity() >= s.h.size(), 1); { auto y(s.h); int p = 0; std::vector<int> all(s.seq); std::sort(all.begin(), all.end()); while (!y.empty()) { EQ("shared-heap", y.top().k, all[p++]); y.pop(); } } break;
    case 4: for (int k = 0; k < 3; k++) { long p = 0, q = 0; s.b.traversal([&](const auto &) { p++; }, (dstruct::BSTree<Obj>::TraversalType)k); s.a.traversal([&](const auto &) { q++; }, (AvlT::TraversalType)k); EQ("shared-bst", p, sorted.size()); EQ("shared-avl", q, sorted.size()); p = q = 0; for (auto it = s.b.begin((dstruct::BSTree<Obj>::TraversalType)k); it != s.b.end((dstruct::BSTree<Obj>::TraversalType)k); ++it) p++; for (auto it = s.a.begin((AvlT::TraversalType)k); it != s.a.end((AvlT::TraversalType)k); ++it) q++; EQ("shared-bst", p, sorted.size()); EQ("shared-avl", q, sorted.size()); } EQ("shared-bst", s.b.empty() || s.a.empty(), 0); { AvlT y(s.a); y.pop(Obj(sorted[0])); EQ("shared-avl", y.size(), sorted.size() - 1); } break;
    default: EQ("shared-map", s.m.size(), sorted.size()); EQ("shared-map", s.m.empty(), 0); { int k = (int)c.r.below(100); auto it = s.m.find(k); EQ("shared-map", it != s.m.end(), s.set.count(k)); if (it != s.m.end()) EQ("shared-map", it->value.k, k + 1); dstruct::Map<int, Obj> y(s.m); y.pop(sorted[0]); EQ("shared-map", y.size(), sorted.size() - 1); } EQ("shared-uf", s.u.size(), 9); EQ("shared-uf", s.u.empty(), 0); { dstruct::UFSet y(s.u); EQ("shared-uf", y.count(), 8); } { dstruct::Array<int, 5> y(s.ar); int p = 0; for (auto it = s.ar.begin(); it != s.ar.end(); ++it, p++) EQ("shared-array", *it, p); EQ("shared-array", y[4], 4); EQ("shared-array", s.ar.front() + s.ar.back(), 4); } break;
    }
}

// ---- the whole interface (config_ops.hpp): a history run next to five others observes what it observes when it runs alone
thread_local long Own::live = 0; static thread_local uint64_t t_digest = 0; static thread_local long t_checks = 0;
void Sink::put(const char *what, long v) { t_checks++; t_digest = (t_digest ^ (unsigned char)what[0] ^ (uint64_t)v * 0x9E3779B97F4A7C15ull) * 1099511628211ull; t_digest ^= t_digest >> 29; }
static uint64_t history(int kind, uint64_t seed, Ctx *c) {
    t_digest = 14695981039346656037ull; long live = Own::live; KindOps o = alone::kind(kind); Rng r(seed); void *obj[2] = { malloc(o.size), malloc(o.size) };
    for (int j = 0; j < 2; j++) o.make(obj[j]);
    int n = 25 + (int)r.below(20);
    for (int i = 0; i < n; i++) { if (c) c->op(); unsigned w = r.below(30), j = r.below(2), op = r.below(16); int x = (int)r.below(1000); if (w == 0) o.copy(obj[j], obj[1 - j]); else if (w == 1) o.move(obj[j], obj[1 - j]); else o.step(obj[j], op, x); }
    for (int j = 0; j < 2; j++) { o.kill(obj[j]); free(obj[j]); }
    if (c) { c->checks += t_checks; t_checks = 0; }
    Sink::put("live", Own::live - live); return t_digest;
}
static pthread_barrier_t g_bar; static Shared *g_shared; static Hollow *g_hollow; static unsigned g_kind;
struct Arg { int tid; uint64_t seed; int mode; int kind[3]; uint64_t digest[3]; };
static void *body(void *p) {
    Arg *a = (Arg *)p; Ctx c(a->tid, a->seed);
    pthread_barrier_wait(&g_bar);
    if (a->mode == 0) for (int i = 0; i < 4; i++) WORK[c.r.below(NW)](c);
    else if (a->mode == 1) for (int i = 0; i < 3; i++) WORK[g_kind](c);
    else if (a->mode == 2) for (int i = 0; i < 60; i++) { unsigned w = c.r.below(6); if (w < 3) read_all(c, *g_shared); else if (w < 5) read_rest(c, *g_shared); else read_hollow(c, *g_hollow); }
    else for (int i = 0; i < 3; i++) a->digest[i] = history(a->kind[i], a->seed + (uint64_t)i, &c);
    return 0;
}
int main(int argc, char **argv) {
    long rounds = 120; long scale = 100; int shard = 0, shards = 1; g_seed = 1;
    for (int i = 1; i < argc; i++) { const char *v = i + 1 < argc ? argv[i + 1] : ""; if (!strcmp(argv[i], "--seed")) { g_seed = strtoull(v, 0, 10); i++; } else if (!strcmp(argv[i], "--scale")) { scale = atol(v); i++; } else if (!strcmp(argv[i], "--shard")) { sscanf(v, "%d/%d", &shard, &shards); i++; } else i++; }
    rounds = rounds * scale / 100; setvbuf(stdout, 0, _IOFBF, 1 << 14);
    const int NT = 6; long cases = 0; std::set<uint64_t> inter; uint64_t base = g_seed; std::string sample; long switches = 0;
    for (long r = 0; r < rounds; r++) {
        if (r % shards != shard) continue;
        int mode = (int)(r % 5 == 4 ? 3 : r % 5 == 3 ? 1 : r % 5 == 2 ? 2 : 0); g_phase = mode == 2 ? "shared-const" : mode == 1 ? "same-type" : mode == 3 ? "alone-or-together" : "distinct-objects";
        uint64_t seed = base * 7919 + (uint64_t)r; Rng rr(seed); g_kind = (unsigned)(r / 5) % NW; g_logpos = 0;
        Shared *s = mode == 2 ? new Shared(rr) : 0; g_shared = s; Hollow *hl = mode == 2 ? new Hollow : 0; g_hollow = hl;
        if (hl && rr.below(3)) { Shared t(rr); if (rr.below(2)) { // emptied by moving the contents out, or by removing them
            hl->v = t.v; { auto x = dstruct::move(hl->v); } hl->dl = t.dl; { auto x = dstruct::move(hl->dl); } hl->sl = t.sl; { auto x = dstruct::move(hl->sl); } hl->dq = t.dq; { auto x = dstruct::move(hl->dq); } hl->q = t.q; { auto x = dstruct::move(hl->q); } hl->st = t.st; { auto x = dstruct::move(hl->st); } hl->h = t.h; { auto x = dstruct::move(hl->h); } hl->x = t.x; { auto x = dstruct::move(hl->x); } hl->b = t.b; { auto x = dstruct::move(hl->b); } hl->a = t.a; { auto x = dstruct::move(hl->a); } hl->m = t.m; { auto x = dstruct::move(hl->m); } hl->s = t.s; { auto x = dstruct::move(hl->s); }
        } else { hl->v = t.v; hl->v.clear(); hl->dl = t.dl; hl->dl.clear(); hl->sl = t.sl; hl->sl.clear(); hl->dq = t.dq; while (!hl->dq.empty()) hl->dq.pop_front(); hl->q = t.q; while (!hl->q.empty()) hl->q.pop(); hl->st = t.st; while (!hl->st.empty()) hl->st.pop(); hl->h = t.h; while (!hl->h.empty()) hl->h.pop(); hl->x = t.x; while (!hl->x.empty()) hl->x.pop(); hl->b = t.b; hl->b.clear(); hl->a = t.a; while (!hl->a.empty()) hl->a.pop(*t.a.begin()), t.a.erase(t.a.begin()); hl->m = t.m; hl->m.clear(); hl->s = t.s; hl->s.clear(); } }
        pthread_barrier_init(&g_bar, 0, NT); pthread_t t[NT]; Arg a[NT];
        for (int i = 0; i < NT; i++) { a[i].tid = i; a[i].seed = rr.next(); a[i].mode = mode; for (int k = 0; k < 3; k++) a[i].kind[k] = r % 2 ? (int)(r / 10) % alone::FIRST_SMA : (int)rr.below((unsigned)alone::FIRST_SMA); if (pthread_create(&t[i], 0, body, &a[i])) { fprintf(stderr, "harness: thread\n"); _Exit(3); } }
        for (int i = 0; i < NT; i++) pthread_join(t[i], 0);
        pthread_barrier_destroy(&g_bar); delete s; delete hl;
        if (mode == 3) for (int i = 0; i < NT; i++) for (int k = 0; k < 3; k++) { g_checks++; uint64_t want = history(a[i].kind[k], a[i].seed + (uint64_t)k, 0); if (want != a[i].digest[k]) bad(alone::kind(a[i].kind[k]).name, (long)a[i].digest[k], (long)want); }
        unsigned n = g_logpos.load(); if (n > LOGN) n = LOGN; uint64_t h = 1; std::string sm; for (unsigned i = 0; i < n; i++) { h = h * 1099511628211ull ^ g_log[i]; if (i && g_log[i] != g_log[i - 1]) switches++; if (i < 60) sm += (char)('A' + g_log[i]); }
        if (inter.insert(h).second && sm.size() > sample.size()) sample = sm;
        cases += NT;
    }
    printf("STATS {\"configs\":4,\"cases\":%ld,\"ops\":%ld,\"checks\":%ld,\"distinct\":%zu,\"states\":%zu,\"aborted\":0,\"exhaustive_configs\":0,\"exhaustive_cases\":0,\"maxsize\":0,\"forks\":0,\"faults\":0,\"stops\":0,\"survived\":0,\"elements_constructed\":0,\"elements_copied\":0,\"allocations\":0,\"switches\":%ld,\"samples\":[\"one round, which thread (A-F) does the next operation: %s\"],\"ignored\":{}}\n", cases, g_ops.load(), g_checks.load(), inter.size(), inter.size(), switches, sample.c_str());
    fflush(stdout); return 0;
}
