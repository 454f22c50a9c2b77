// The containers of namespace dstruct::smemory: all of them share one 10 KB pool. One object of every
// kind lives at the same time; nothing is taken from malloc; everything is given back at the end.
#include "vh.hpp"
#include <dstruct-static.hpp>
using namespace vh;
namespace sm = dstruct::smemory;
typedef sm::SMA S;
typedef Vec<int> Seq;
static const int POOL = 10 * 1024;

static void check_seq(const char *what, const Seq &m, const Seq &got) {
    EXPECT_EQ(C_MODEL, what, got.size(), m.size());
    for (size_t i = 0; i < m.size(); i++) EXPECT(C_MODEL, what, got[i] == m[i], "%s: element %zu is %d, expected %d", what, i, got[i], m[i]);
}
struct Kind { virtual void step(Chooser &) = 0; virtual void verify() = 0; virtual ~Kind() {} virtual void turn(int) = 0; Seq m; static int next() { static int n = 0; return ++n & 0xfffff; }
    void *operator new(size_t n) { OutLib o; return malloc(n); } void operator delete(void *p) { free(p); } };
// the object goes through a copy or a move of itself and is what it was
template <class C> static void turn_(C &c, int how) {
    op("turn", how); removal(); InLib in;
    switch (how) {
    case 0: { C t(*(const C *)&c); c = *(const C *)&t; break; }
    case 1: { C t(dstruct::move(c)); c = dstruct::move(t); break; }
    case 2: { C t(*(const C *)&c); c = dstruct::move(t); break; }
    case 3: c = *(const C *)&c; break;
    default: { C t(dstruct::move(c)); c = *(const C *)&t; break; }
    }
}
// growth is limited so that all objects together fit the pool
enum { CAP = 9 };
struct KVec : Kind { sm::Vector<Tracked> v;
    void step(Chooser &ch) { unsigned r = ch.choose(8);
        if (r < 5 && m.size() < CAP) { int k = next(); op("vec.push", k); Tracked t(k); LIB(v.push_back(t)); m.push_back(k); }
        else if (r < 7 && !m.empty()) { op("vec.pop"); removal(); LIB(v.pop_back()); m.pop_back(); }
        else { op("vec.clear"); removal(); LIB(v.clear()); m.clear(); } }
    void turn(int how) { turn_(v, how); }
    void verify() { Seq g; EXPECT_EQ(C_MODEL, "vector-size", v.size(), m.size()); for (auto it = v.begin(); it != v.end(); it++) g.push_back(it->k); check_seq("vector", m, g); for (size_t i = 0; i < m.size(); i++) EXPECT_EQ(C_MODEL, "vector", v[(int)i].k, m[i]); } };
struct KStr : Kind { sm::String s;
    void step(Chooser &ch) { unsigned r = ch.choose(8);
        if (r < 3) { if (m.size() > 60) return; int c = 'a' + (int)ch.choose(26); op("str.push", c); LIB(s.push_back((char)c)); m.push_back(c); }
        else if (r < 5 && m.size() < 40) { op("str.append"); InLib in; sm::String t("xyz"); s += t; m.push_back('x'); m.push_back('y'); m.push_back('z'); }
        else if (r < 7 && !m.empty()) { op("str.clear"); removal(); InLib in; s = sm::String(); m.clear(); }
        else { op("str.assign"); removal(); InLib in; sm::String t("hello"); s = t; m.clear(); const char *h = "hello"; while (*h) m.push_back(*h++); } }
    void turn(int how) { turn_(s, how); }
    void verify() { EXPECT_EQ(C_MODEL, "string-size", s.size(), m.size()); Seq g; const char *c = s.c_str(); for (size_t i = 0; c[i] && i <= m.size(); i++) g.push_back(c[i]); check_seq("string", m, g); } };
template <class L> struct PopBack { static void run(L &l) { l.pop_back(); } static void model(Seq &m) { m.pop_back(); } };
template <> struct PopBack<sm::SLinkedList<Tracked> > { static void run(sm::SLinkedList<Tracked> &l) { l.pop_front(); } static void model(Seq &m) { m.erase(m.begin()); } };
template <class L, int FRONT> struct KList : Kind { L l; 
    void step(Chooser &ch) { unsigned r = ch.choose(8);
        if (r < 3 && m.size() < CAP) { int k = next(); op("list.push_back", k); Tracked t(k); LIB(l.push_back(t)); m.push_back(k); }
        else if (r < 4 && m.size() < CAP) { int k = next(); op("list.push_front", k); Tracked t(k); LIB(l.push_front(t)); m.insert(m.begin(), k); }
        else if (r < 6 && !m.empty()) { op("list.pop_front"); removal(); LIB(l.pop_front()); m.erase(m.begin()); }
        else if (r < 7 && !m.empty()) { op("list.pop_back"); removal(); LIB(PopBack<L>::run(l)); PopBack<L>::model(m); }
        else { op("list.clear"); removal(); LIB(l.clear()); m.clear(); } }
    void turn(int how) { turn_(l, how); }
    void verify() { Seq g; EXPECT_EQ(C_MODEL, "list-size", l.size(), m.size()); for (auto it = l.begin(); it != l.end() && g.size() <= m.size(); it++) g.push_back(it->k); check_seq("list", m, g); } };
struct KQueue : Kind { sm::Queue<int> q; 
    void step(Chooser &ch) { if (ch.choose(5) < 3 && m.size() < 60) { int k = next(); op("queue.push", k); LIB(q.push(k)); m.push_back(k); } else if (!m.empty()) { op("queue.pop"); removal(); LIB(q.pop()); m.erase(m.begin()); } }
    void turn(int how) { turn_(q, how); }
    void verify() { EXPECT_EQ(C_MODEL, "queue-size", q.size(), m.size()); if (!m.empty()) { EXPECT_EQ(C_MODEL, "queue-front", q.front(), m[0]); EXPECT_EQ(C_MODEL, "queue-back", q.back(), m.back()); } } };
struct KDeque : Kind { sm::Deque<int, 4> d;
    void step(Chooser &ch) { unsigned r = ch.choose(10);
        if (r < 3 && m.size() < 40) { int k = next(); op("deque.push_back", k); LIB(d.push_back(k)); m.push_back(k); }
        else if (r < 6 && m.size() < 40) { int k = next(); op("deque.push_front", k); LIB(d.push_front(k)); m.insert(m.begin(), k); }
        else if (r < 8 && !m.empty()) { op("deque.pop_front"); removal(); LIB(d.pop_front()); m.erase(m.begin()); }
        else if (!m.empty()) { op("deque.pop_back"); removal(); LIB(d.pop_back()); m.pop_back(); } }
    void turn(int how) { turn_(d, how); }
    void verify() { Seq g; EXPECT_EQ(C_MODEL, "deque-size", d.size(), m.size()); for (auto it = d.begin(); it != d.end() && g.size() <= m.size(); it++) g.push_back(*it); check_seq("deque", m, g); } };
template <class H, bool MIN> struct KHeap : Kind { H h;
    void step(Chooser &ch) { if (ch.choose(5) < 3 && m.size() < 20) { int k = (int)ch.choose(50); op("heap.push", k); LIB(h.push(k)); m.push_back(k); std::sort(m.begin(), m.end()); } else if (!m.empty()) { op("heap.pop"); removal(); LIB(h.pop()); if (MIN) m.erase(m.begin()); else m.pop_back(); } }
    void turn(int how) { turn_(h, how); }
    void verify() { EXPECT_EQ(C_MODEL, "heap-size", h.size(), m.size()); if (!m.empty()) EXPECT_EQ(C_MODEL, "heap-top", h.top(), MIN ? m[0] : m.back()); } };
template <class X, bool MIN> struct KX : Kind { X x;
    void step(Chooser &ch) { if (ch.choose(5) < 3 && m.size() < 16) { int k = (int)ch.choose(9); op("xstack.push", k); LIB(x.push(k)); m.push_back(k); } else if (!m.empty()) { op("xstack.pop"); removal(); LIB(x.pop()); m.pop_back(); } }
    void turn(int how) { turn_(x, how); }
    void verify() { EXPECT_EQ(C_MODEL, "xstack-empty", x.empty(), m.empty()); if (m.empty()) return; int b = m[0]; for (size_t i = 1; i < m.size(); i++) if (MIN ? m[i] < b : m[i] > b) b = m[i]; EXPECT_EQ(C_MODEL, "xstack-top", x.top(), m.back()); EXPECT_EQ(C_MODEL, "xstack-extreme", x.getXValue(), b); } };
struct KStack : Kind { sm::Stack<Tracked> s;
    void step(Chooser &ch) { if (ch.choose(5) < 3 && m.size() < CAP) { int k = next(); op("stack.push", k); Tracked t(k); LIB(s.push(t)); m.push_back(k); } else if (!m.empty()) { op("stack.pop"); removal(); LIB(s.pop()); m.pop_back(); } }
    void turn(int how) { turn_(s, how); }
    void verify() { EXPECT_EQ(C_MODEL, "stack-size", s.size(), m.size()); if (!m.empty()) EXPECT_EQ(C_MODEL, "stack-top", s.top().k, m.back()); } };
struct KTree : Kind { sm::BSTree<Tracked> t;
    void step(Chooser &ch) { int k = (int)ch.choose(14); Seq::iterator p = std::lower_bound(m.begin(), m.end(), k); bool has = p != m.end() && *p == k;
        if (ch.choose(5) < 3 && (has || m.size() < CAP)) { op("tree.push", k); Tracked e(k); LIB(t.push(e)); if (!has) m.insert(p, k); } else { op("tree.pop", k); removal(); Tracked e(k); LIB(t.pop(e)); if (has) m.erase(p); } }
    void turn(int how) { turn_(t, how); }
    void verify() { Seq g; EXPECT_EQ(C_MODEL, "tree-size", t.size(), m.size()); for (auto it = t.begin(); it != t.end() && g.size() <= m.size(); it++) g.push_back(it->k); check_seq("tree", m, g); } };
struct KUf : Kind { sm::UFSet u; enum { N = 12 }; KUf() : u(N) { for (int i = 0; i < N; i++) m.push_back(i); }
    void step(Chooser &ch) { int a = (int)ch.choose(N), b = (int)ch.choose(N); op("uf.connect", a, b); LIB(u.connect(a, b)); int x = m[a], y = m[b]; for (int i = 0; i < N; i++) if (m[i] == x) m[i] = y; }
    void turn(int how) { turn_(u, how); }
    void verify() { int f[N]; for (int i = 0; i < N; i++) { LIB(f[i] = u.find(i)); EXPECT(C_MODEL, "uf-range", f[i] >= 0 && f[i] < N, "representative out of range"); } for (int i = 0; i < N; i++) for (int j = 0; j < N; j++) EXPECT(C_MODEL, "uf", (f[i] == f[j]) == (m[i] == m[j]), "%d and %d are %s", i, j, f[i] == f[j] ? "joined" : "apart"); } };
static const int NK = 14;
static Kind *make(int k) {
    InLib in;
    switch (k) {
    case 0: return new KVec; case 1: return new KStr; case 2: return new KList<sm::SLinkedList<Tracked>, 1>; case 3: return new KList<sm::DLinkedList<Tracked>, 1>;
    case 4: return new KQueue; case 5: return new KDeque; case 6: return new KHeap<sm::MinHeap<int>, true>; case 7: return new KHeap<sm::MaxHeap<int>, false>;
    case 8: return new KX<sm::MinStack<int>, true>; case 9: return new KX<sm::MaxStack<int>, false>; case 10: return new KStack; case 11: return new KTree; case 12: return new KUf; case 13: return new KHeap<sm::PriorityQueue<int, dstruct::greater<int> >, false>;
    }
    return 0;
}
static void destroy(Kind *k) { Seq keep; LIB(delete k); }
static void all(Chooser &ch) {
    Kind *k[NK] = { 0 }; int live = 2 + (int)ch.choose(NK);
    LIB(S::memory_merge()); int f0; LIB(f0 = S::free_mem_size());
    EXPECT_EQ(C_LEAK, "pool", f0, POOL);
    struct G { Kind **k; ~G() { for (int i = 0; i < NK; i++) if (k[i]) destroy(k[i]); } } g = { k };
    int n = 60 + (int)ch.choose(200);
    for (int i = 0; i < NK; i++) if ((int)ch.choose(NK) < live) { op("create", i); k[i] = make(i); }
    while (n--) {
        int big; LIB(big = S::max_free_mblock_size()); if (big < 2048 || ch.choose(30) == 0) LIB(S::memory_merge());
        int i = (int)ch.choose(NK);
        if (!k[i]) { if (ch.choose(6) == 0) { op("create", i); k[i] = make(i); } else continue; }
        if (ch.choose(60) == 0) { op("destroy", i); removal(); destroy(k[i]); k[i] = 0; continue; }
        int most; LIB(most = S::max_free_mblock_size());
        if (most >= 2048 && ch.choose(12) == 0) k[i]->turn((int)ch.choose(5)); else k[i]->step(ch);
        if (ch.choose(6) == 0) { for (int j = 0; j < NK; j++) if (k[j]) k[j]->verify(); } else k[i]->verify();
        int f; LIB(f = S::free_mem_size()); EXPECT(C_SMA_ACC, "pool", f >= 0 && f <= POOL, "free_mem_size is %d", f);
        note_size(k[i]->m.size()); uint64_t h = (uint64_t)i; for (size_t q = 0; q < k[i]->m.size() && q < 12; q++) h = mix(h, (uint64_t)k[i]->m[q] & 63); note_state(h);
    }
    for (int j = 0; j < NK; j++) if (k[j]) k[j]->verify();
    for (int i = 0; i < NK; i++) if (k[i]) { destroy(k[i]); k[i] = 0; }
    LIB(S::memory_merge()); LIB(S::dump());
    EXPECT_EQ(C_LEAK, "pool-leak", S::free_mem_size(), POOL);
    EXPECT_EQ(C_SMA_MRG, "pool-whole", S::max_free_mblock_size(), POOL);
}
int main(int argc, char **argv) { watch_malloc(); add("smem", "smemory", 2500, all); return vh_main(argc, argv); }
