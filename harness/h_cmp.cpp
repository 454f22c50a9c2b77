// Ordering comes from the comparator object the container was given, and from nothing else:
// elements have no ordering operators, comparators are stateful (a salted order), every call
// reports which comparator object it was made by.
#include "pool.hpp"
using namespace vh;
typedef VH_ALLOC A;

struct E { int k, pay; E() : k(0), pay(0) {} E(int a, int b) : k(a), pay(b) {} bool operator==(const E &o) const { return k == o.k && pay == o.pay; } bool operator!=(const E &o) const { return !(*this == o); } };
static int g_id; static long g_calls;          // the comparator which may be used now
struct SC {
    int id; unsigned salt; bool rev;
    SC() : id(0), salt(0), rev(false) {}
    SC(int i, unsigned s, bool r) : id(i), salt(s), rev(r) {}
    unsigned rank(int k) const { return ((unsigned)k ^ salt) & 0xffffff; }
    bool before(int a, int b) const { return rev ? rank(a) > rank(b) : rank(a) < rank(b); }
    bool operator()(const E &a, const E &b) const {
        g_calls++;
        if (id != g_id) soft(C_MODEL, "foreign-comparator", "a comparison is made by comparator %d in a container ordered by comparator %d", id, g_id);
        return before(a.k, b.k);
    }
};
static void *raw(size_t n) { OutLib o; return malloc(n); }
typedef Vec<E> Es;
static int g_next;
static SC mkcmp(Chooser &ch) { g_next++; return SC(g_next, ch.choose(3) ? (unsigned)ch.choose(1 << 12) : 0, ch.choose(2) == 1); }
#define USE(c) (g_id = (c).id)

// ---------------------------------------------------------------- trees
template <class T> struct IsAvl { enum { v = 0 }; }; template <> struct IsAvl<dstruct::AVLTree<E, SC, A> > { enum { v = 1 }; };
template <class Tr> static void tree(Chooser &ch) {
    enum { N = 3 }; Tr *t[N]; SC c[N]; Es m[N]; bool ok[N]; int pay = 1; int range = 4 + (int)ch.choose(60);
    for (int i = 0; i < N; i++) { c[i] = mkcmp(ch); USE(c[i]); LIB(t[i] = new (raw(sizeof(Tr))) Tr(c[i])); ok[i] = true; }
    auto lower = [&](int i, int k) { size_t p = 0; while (p < m[i].size() && c[i].before(m[i][p].k, k)) p++; return p; };
    auto has = [&](int i, int k) { size_t p = lower(i, k); return p < m[i].size() && m[i][p].k == k; };
    auto verify = [&](int i) {
        USE(c[i]); size_t p = 0; EXPECT_EQ(C_MODEL, "size", t[i]->size(), m[i].size());
        for (auto it = t[i]->begin(); it != t[i]->end(); ++it, p++) { EXPECT(C_MODEL, "order", p < m[i].size(), "too many elements"); EXPECT(C_MODEL, "order", *it == m[i][p], "element %zu is (%d,%d), in the order given it is (%d,%d)", p, (*it).k, (*it).pay, m[i][p].k, m[i][p].pay); }
        EXPECT_EQ(C_MODEL, "order", p, m[i].size());
        for (int q = 0; q < 4; q++) { int k = (int)ch.choose(range); E probe(k, -1); auto it = t[i]->find(probe); if (has(i, k)) EXPECT(C_MODEL, "find", it != t[i]->end() && *it == m[i][lower(i, k)], "find of an equivalent element misses"); else EXPECT(C_MODEL, "find", it == t[i]->end(), "find of an absent element hits"); }
        note_size(m[i].size()); Seq s; for (p = 0; p < m[i].size() && p < 20; p++) s.push_back(m[i][p].k); note_state(hash_seq(s) ^ c[i].rev);
    };
    int n = 30 + (int)ch.choose(80);
    while (n--) {
        int i = (int)ch.choose(N), j = (int)ch.choose(N); unsigned r = ch.choose(20); if (!ok[i] && r < 18) r = 18; if (!ok[j]) j = i;
        USE(c[i]);
        if (r < 9) { int k = (int)ch.choose(range); if (IsAvl<Tr>::v && has(i, k)) continue; op("push", i, k, pay); E e(k, pay++); InLib in; t[i]->push(e); if (!has(i, k)) m[i].insert(m[i].begin() + lower(i, k), e); }
        else if (r < 14) { int k = m[i].empty() || ch.choose(4) == 0 ? (int)ch.choose(range) : m[i][ch.choose((unsigned)m[i].size())].k; op("pop", i, k); removal(); E e(k, -5); LIB(t[i]->pop(e)); if (has(i, k)) m[i].erase(m[i].begin() + lower(i, k)); }
        else if (r < 16) { if (m[i].empty()) continue; size_t p = ch.choose((unsigned)m[i].size()); op("erase", i, (long)p); removal(); E e(m[i][p].k, -5); InLib in; auto it = t[i]->find(e); t[i]->erase(it); m[i].erase(m[i].begin() + p); }
        else if (r < 17) { op("copy_assign", i, j); g_id = -1; LIB(*t[i] = *(const Tr *)t[j]); c[i] = c[j]; m[i] = m[j]; removal(); }
        else if (r < 18) { op("copy_construct", i, j); g_id = -1; InLib in; Tr *x = new (raw(sizeof(Tr))) Tr(*(const Tr *)t[j]); Es mm = m[j]; SC cc = c[j]; t[i]->~Tr(); free(t[i]); t[i] = x; c[i] = cc; m[i] = mm; removal(); }
        else if (r < 19) { // fresh object with its own comparator
            op("recreate", i); g_id = -1; LIB(t[i]->~Tr()); free(t[i]); c[i] = mkcmp(ch); USE(c[i]); LIB(t[i] = new (raw(sizeof(Tr))) Tr(c[i])); m[i].clear(); ok[i] = true; }
        else if (i != j && ok[i] && ok[j]) { // the comparator moves with the contents; the source is not used again before it is given a new value
            op("move_assign", i, j); g_id = -1; LIB(*t[i] = dstruct::move(*t[j])); c[i] = c[j]; m[i] = m[j]; ok[j] = false; m[j].clear(); removal(); }
        if (ok[i]) verify(i);
    }
    for (int i = 0; i < N; i++) { if (ok[i]) verify(i); g_id = -1; LIB(t[i]->~Tr()); free(t[i]); }
}
// construction of a search tree from a range
static void bst_range(Chooser &ch) {
    typedef dstruct::tree::BinarySearchTree<E, SC, A> Tr; SC c = mkcmp(ch); USE(c); int n = (int)ch.choose(30); E *a = (E *)malloc(sizeof(E) * (n + 1)); Es m;
    for (int i = 0; i < n; i++) { a[i] = E((int)ch.choose(40), i); op("elem", a[i].k); bool dup = false; for (size_t q = 0; q < m.size(); q++) dup = dup || m[q].k == a[i].k; if (!dup) { size_t p = 0; while (p < m.size() && c.before(m[p].k, a[i].k)) p++; m.insert(m.begin() + p, a[i]); } }
    op("build", n); removal(); { InLib in; dstruct::PrimitiveIterator<E> b(a), e(a + n); Tr t(b, e, c); size_t p = 0; EXPECT_EQ(C_MODEL, "size", t.size(), m.size());
    for (auto it = t.begin(); it != t.end(); it++, p++) EXPECT(C_MODEL, "order", p < m.size() && *it == m[p], "element %zu is out of order", p); } note_size(m.size()); note_state(n * 7 + m.size()); free(a);
}
// ---------------------------------------------------------------- heap
typedef dstruct::Heap<E, SC, A> H;
static void heap(Chooser &ch) {
    enum { N = 3 }; H *h[N]; SC c[N]; Es m[N]; bool ok[N]; int pay = 1, range = 4 + (int)ch.choose(60); E filler(7, 7);
    for (int i = 0; i < N; i++) { c[i] = mkcmp(ch); USE(c[i]); LIB(h[i] = new (raw(sizeof(H))) H(c[i], filler)); ok[i] = true; }
    auto best = [&](int i) { size_t b = 0; for (size_t q = 1; q < m[i].size(); q++) if (c[i].before(m[i][q].k, m[i][b].k)) b = q; return b; };
    auto verify = [&](int i) {
        USE(c[i]); EXPECT_EQ(C_MODEL, "size", h[i]->size(), m[i].size()); if (m[i].empty()) return;
        E t = h[i]->top(); EXPECT(C_MODEL, "top", !c[i].before(m[i][best(i)].k, t.k), "top is %d, the order given puts %d first", t.k, m[i][best(i)].k);
        Es got; for (auto it = h[i]->begin(); it != h[i]->end(); it++) { EXPECT(C_MODEL, "contents", got.size() < m[i].size(), "too many elements"); got.push_back(*it); }
        EXPECT_EQ(C_MODEL, "contents", got.size(), m[i].size()); for (size_t q = 0; q < m[i].size(); q++) { size_t f = 0; while (f < got.size() && got[f] != m[i][q]) f++; EXPECT(C_MODEL, "contents", f < got.size(), "element (%d,%d) is lost", m[i][q].k, m[i][q].pay); got[f] = got.back(); got.pop_back(); }
        note_size(m[i].size()); Seq s; for (size_t q = 0; q < m[i].size() && q < 20; q++) s.push_back(m[i][q].k); note_state(hash_seq(s) ^ c[i].rev);
    };
    auto drop = [&](int i, const E &t) { size_t f = 0; while (f < m[i].size() && m[i][f] != t) f++; EXPECT(C_MODEL, "top", f < m[i].size(), "top is no element of the heap"); m[i][f] = m[i].back(); m[i].pop_back(); };
    int n = 30 + (int)ch.choose(80);
    while (n--) {
        int i = (int)ch.choose(N), j = (int)ch.choose(N); unsigned r = ch.choose(20); if (!ok[i] && r < 18) r = 18; if (!ok[j]) j = i; USE(c[i]);
        if (r < 10) { int k = (int)ch.choose(range); op("push", i, k); E e(k, pay++); LIB(h[i]->push(e)); m[i].push_back(e); }
        else if (r < 16) { if (m[i].empty()) continue; op("pop", i); removal(); E t; LIB(t = h[i]->top(); h[i]->pop()); drop(i, t); }
        else if (r < 17) { op("copy_assign", i, j); g_id = -1; LIB(*h[i] = *(const H *)h[j]); c[i] = c[j]; m[i] = m[j]; removal(); }
        else if (r < 18) { op("copy_construct", i, j); g_id = -1; InLib in; H *x = new (raw(sizeof(H))) H(*(const H *)h[j]); Es mm = m[j]; SC cc = c[j]; h[i]->~H(); free(h[i]); h[i] = x; c[i] = cc; m[i] = mm; removal(); }
        else if (r < 19) { op("recreate", i); g_id = -1; LIB(h[i]->~H()); free(h[i]); c[i] = mkcmp(ch); USE(c[i]); LIB(h[i] = new (raw(sizeof(H))) H(c[i], filler)); m[i].clear(); ok[i] = true; }
        else if (i != j && ok[i] && ok[j]) { op("move_assign", i, j); g_id = -1; LIB(*h[i] = dstruct::move(*h[j])); c[i] = c[j]; m[i] = m[j]; ok[j] = false; m[j].clear(); removal(); }
        if (ok[i]) verify(i);
    }
    for (int i = 0; i < N; i++) { if (ok[i]) { verify(i); USE(c[i]); E last; bool first = true; while (!m[i].empty()) { E t; LIB(t = h[i]->top(); h[i]->pop()); EXPECT(C_MODEL, "drain", first || !c[i].before(t.k, last.k), "elements leave in another order than the one given"); first = false; last = t; drop(i, t); } } g_id = -1; LIB(h[i]->~H()); free(h[i]); }
}
// the default comparator of sort/build
static void heap_static(Chooser &ch) {
    int n = (int)ch.choose(40); E *a = (E *)malloc(sizeof(E) * (n + 1)); Es m; for (int i = 0; i < n; i++) { a[i] = E((int)ch.choose(30), i); m.push_back(a[i]); op("elem", a[i].k); }
    g_id = 0; dstruct::PrimitiveIterator<E> b(a), e(a + n); bool srt = ch.choose(2); op(srt ? "sort" : "build", n); removal();
    if (srt) { LIB(H::sort(b, e)); for (int i = 1; i < n; i++) EXPECT(C_MODEL, "sort", a[i - 1].k <= a[i].k, "element %d is out of order", i); }
    else { InLib in; H h = H::build(b, e); EXPECT_EQ(C_MODEL, "build-size", h.size(), n); for (int i = 1; i < n; i++) EXPECT(C_MODEL, "build", a[(i - 1) / 2].k <= a[i].k, "element %d is before its parent", i); int last = -1; while (!h.empty()) { int k = h.top().k; EXPECT(C_MODEL, "build-pop", k >= last, "elements leave out of order"); last = k; h.pop(); } }
    for (int i = 0; i < n; i++) { size_t f = 0; while (f < m.size() && m[f] != a[i]) f++; EXPECT(C_MODEL, "contents", f < m.size(), "an element was lost or invented"); m[f] = m.back(); m.pop_back(); } note_size(n); free(a);
}
// ---------------------------------------------------------------- extreme value stack
typedef dstruct::stack::XValueStack<E, SC, dstruct::adapter::Stack<E, dstruct::Vector<E, A> > > X;
static void xstack(Chooser &ch) {
    enum { N = 3 }; X *x[N]; SC c[N]; Es m[N]; bool ok[N]; int range = 2 + (int)ch.choose(20), pay = 0;
    for (int i = 0; i < N; i++) { c[i] = mkcmp(ch); USE(c[i]); LIB(x[i] = new (raw(sizeof(X))) X(c[i])); ok[i] = true; }
    auto verify = [&](int i) { USE(c[i]); EXPECT_EQ(C_MODEL, "empty", x[i]->empty(), m[i].empty()); if (m[i].empty()) return; EXPECT(C_MODEL, "top", x[i]->top() == m[i].back(), "top is not the last value pushed"); int b = m[i][0].k; for (size_t q = 1; q < m[i].size(); q++) if (c[i].before(m[i][q].k, b)) b = m[i][q].k; E g = x[i]->getXValue(); EXPECT(C_MODEL, "extreme", g.k == b, "the extreme value is %d, the order given makes it %d", g.k, b);
        bool in = false; for (size_t q = 0; q < m[i].size(); q++) in = in || m[i][q] == g; EXPECT(C_MODEL, "extreme", in, "the extreme value is not in the stack"); note_size(m[i].size()); Seq s; for (size_t q = 0; q < m[i].size() && q < 20; q++) s.push_back(m[i][q].k); note_state(hash_seq(s) ^ c[i].rev); };
    int n = 30 + (int)ch.choose(80);
    while (n--) {
        int i = (int)ch.choose(N), j = (int)ch.choose(N); unsigned r = ch.choose(20); if (!ok[i] && r < 18) r = 18; if (!ok[j]) j = i; USE(c[i]);
        if (r < 9) { E e((int)ch.choose(range), ch.choose(2) ? 0 : pay++); op("push", i, e.k, e.pay); LIB(x[i]->push(e)); m[i].push_back(e); }
        else if (r < 15) { if (m[i].empty()) continue; op("pop", i); removal(); LIB(x[i]->pop()); m[i].pop_back(); }
        else if (r < 16) { op("clear", i); removal(); LIB(x[i]->clear()); m[i].clear(); }
        else if (r < 17) { op("copy_assign", i, j); g_id = -1; LIB(*x[i] = *(const X *)x[j]); c[i] = c[j]; m[i] = m[j]; removal(); }
        else if (r < 18) { op("copy_construct", i, j); g_id = -1; InLib in; X *y = new (raw(sizeof(X))) X(*(const X *)x[j]); Es mm = m[j]; SC cc = c[j]; x[i]->~X(); free(x[i]); x[i] = y; c[i] = cc; m[i] = mm; removal(); }
        else if (r < 19) { op("recreate", i); g_id = -1; LIB(x[i]->~X()); free(x[i]); c[i] = mkcmp(ch); USE(c[i]); LIB(x[i] = new (raw(sizeof(X))) X(c[i])); m[i].clear(); ok[i] = true; }
        else if (i != j && ok[i] && ok[j]) { op("move_assign", i, j); g_id = -1; LIB(*x[i] = dstruct::move(*x[j])); c[i] = c[j]; m[i] = m[j]; ok[j] = false; m[j].clear(); removal(); }
        if (ok[i]) verify(i);
    }
    for (int i = 0; i < N; i++) { if (ok[i]) verify(i); g_id = -1; LIB(x[i]->~X()); free(x[i]); }
}
// ---------------------------------------------------------------- map: keys have no operators, values have none at all
struct Key { int k; Key() : k(0) {} Key(int a) : k(a) {} };
struct NoOps { int v; NoOps() : v(-1) {} NoOps(int a) : v(a) {} };
struct KCmp { bool operator()(const Key &a, const Key &b) const { g_calls++; return ((unsigned)a.k * 2654435761u) < ((unsigned)b.k * 2654435761u); } };
static void map(Chooser &ch) {
    typedef dstruct::Map<Key, NoOps, KCmp, dstruct::AVLTree<dstruct::KeyValue<const Key, NoOps>, dstruct::KVCMPKey<dstruct::KeyValue<const Key, NoOps>, KCmp>, A> > M;
    M *m = new (raw(sizeof(M))) M(); Vec<int> val(64, -9); int n = 40 + (int)ch.choose(80); size_t sz = 0;
    while (n--) {
        int k = (int)ch.choose(64); Key kk(k);
        if (ch.choose(5) < 3) { int v = (int)ch.choose(1000); op("set", k, v); NoOps nv(v); LIB((*m)[kk] = nv); sz += val[k] == -9; val[k] = v; }
        else { op("pop", k); removal(); LIB(m->pop(kk)); sz -= val[k] != -9; val[k] = -9; }
        InLib in; EXPECT_EQ(C_MODEL, "size", m->size(), sz); bool first = true; unsigned last = 0; size_t cnt = 0;
        for (auto it = m->begin(); it != m->end(); ++it, cnt++) { unsigned h = (unsigned)it->key.k * 2654435761u; EXPECT(C_MODEL, "order", first || last < h, "keys are out of the order given"); EXPECT_EQ(C_MODEL, "value", it->value.v, val[it->key.k]); first = false; last = h; EXPECT(C_MODEL, "order", cnt < sz, "too many entries"); }
        EXPECT_EQ(C_MODEL, "order", cnt, sz); note_size(sz); note_state(mix(sz, last));
    }
    LIB(m->~M()); free(m);
}
int main(int argc, char **argv) {
    watch_malloc();
    add("cmp", "cmp-avl", 1500, tree<dstruct::AVLTree<E, SC, A> >);
    add("cmp", "cmp-bst", 1500, tree<dstruct::tree::BinarySearchTree<E, SC, A> >);
    add("cmp", "cmp-bst-range", 1000, bst_range);
    add("cmp", "cmp-heap", 1500, heap);
    add("cmp", "cmp-heap-static", 2000, heap_static);
    add("cmp", "cmp-xstack", 1500, xstack);
    add("cmp", "cmp-map", 1000, map);
    return vh_main(argc, argv);
}
