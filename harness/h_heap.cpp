// Heap / MinHeap / MaxHeap / PriorityQueue: priority order and conservation of elements.
#include "pool.hpp"
using namespace vh;

template <class T> struct KLess { typedef dstruct::less<T> Cmp; static bool before(int a, int b) { return a < b; } };
template <class T> struct KGreater { typedef dstruct::greater<T> Cmp; static bool before(int a, int b) { return a > b; } };
struct TieCmp { bool operator()(int a, int b) const { return a / 4 < b / 4; } };
struct KTie { typedef TieCmp Cmp; static bool before(int a, int b) { return a / 4 < b / 4; } };
struct RevCmp { bool operator()(const Tracked &a, const Tracked &b) const { return a.k % 16 < b.k % 16 || (a.k % 16 == b.k % 16 && a.k > b.k); } };
struct KRev { typedef RevCmp Cmp; static bool before(int a, int b) { return a % 16 < b % 16 || (a % 16 == b % 16 && a > b); } };

// model: multiset of keys, kept sorted by value
template <class T, class KC, class A>
struct HeapDrv : Pool<dstruct::Heap<T, typename KC::Cmp, A>, Seq, HeapDrv<T, KC, A> > {
    typedef dstruct::Heap<T, typename KC::Cmp, A> H;
    typedef dstruct::Vector<T, A> Vec_;
    typedef Pool<H, Seq, HeapDrv<T, KC, A> > P;
    using P::o; using P::m; using P::ch; using P::K;
    size_t maxsize; unsigned groups; Phase ph[4]; unsigned range;
    HeapDrv(Chooser &c, int k, size_t mx, unsigned g) : P(c, k), maxsize(mx), groups(g) { static const unsigned rs[] = { 1, 3, 8, 60, 5000 }; range = rs[c.ex ? 1 : c.choose(5)]; this->create_all(); }
    H *fresh(void *p) { return new (p) H; }
    Seq fresh_model() { return Seq(); }
    static void ins(Seq &s, int x) { s.insert(std::lower_bound(s.begin(), s.end(), x), x); }
    void check_top(const Seq &s, int x) {
        bool member = false;
        for (size_t k = 0; k < s.size(); k++) {
            member = member || s[k] == x;
            EXPECT(C_MODEL, "top-priority", !KC::before(s[k], x), "top() is %d although the heap holds %d", x, s[k]);
        }
        EXPECT(C_MODEL, "top-member", member, "top() is %d, which is not in the heap", x);
    }
    void verify(int i, bool full) {
        InLib in;
        H &h = *o[i]; const H &q = h; const Seq &s = m[i];
        EXPECT_EQ(C_MODEL, "size", q.size(), s.size());
        EXPECT_EQ(C_MODEL, "empty", q.empty(), s.empty());
        note_size(s.size());
        if (!s.empty()) check_top(s, Val<T>::key(q.top()));
        if (!full) return;
        if (IsTracked<T>::value) this->check_live(0, 2);
        EXPECT(C_MODEL, "capacity", q.capacity() >= q.size(), "capacity below size");
        Seq c; size_t n = 0;
        for (auto it = q.begin(); it != q.end(); n++) {
            EXPECT(C_MODEL, "conservation", n < s.size(), "iteration yields more than the %zu elements", s.size());
            auto was = it, old = it++;
            EXPECT(C_MODEL, "conservation", old == was && !(old != was), "it++ does not return the position before the step");
            int k = Val<T>::key(*old); c.push_back(k);
        }
        std::sort(c.begin(), c.end());
        EXPECT(C_MODEL, "conservation", c == s, "the heap does not hold the elements pushed and not yet popped");
        note_state(hash_seq(c));
    }
    int draw() { if (!ch.ex && ch.choose(40) == 0) return odd_value(ch.choose(6)); return 1 + (int)ch.choose(range) - (int)range / 3; }
    void push(int i, int x) { T t = Val<T>::make(x); op("push", i, x); LIB(o[i]->push(t)); ins(m[i], Val<T>::norm(x)); }
    void pop(int i) {
        int x = Val<T>::key(o[i]->top()); check_top(m[i], x);
        op("pop", i); LIB(o[i]->pop());
        m[i].erase(std::lower_bound(m[i].begin(), m[i].end(), x)); removal();
    }
    Seq raw(size_t n) { Seq s; while (n--) s.push_back(Val<T>::norm(draw())); return s; }
    void heap_shaped(const char *key, const Seq &c) {
        for (size_t k = 1; k < c.size(); k++)
            EXPECT(C_MODEL, key, !KC::before(c[k], c[(k - 1) / 2]), "element %zu has priority over its parent %zu", k, (k - 1) / 2);
    }
    void statics() {
        size_t n = ch.choose((unsigned)maxsize + 1);
        Seq s = raw(n), sorted(s); std::sort(sorted.begin(), sorted.end());
        Vec_ v; for (size_t k = 0; k < n; k++) { T t = Val<T>::make(s[k]); LIB(v.push_back(t)); }
        // only a part of the range may be given
        size_t from = n ? ch.choose((unsigned)n + 1) / 3 : 0, to = n - (n > from ? ch.choose((unsigned)(n - from) + 1) / 3 : 0);
        Seq part(s.begin() + from, s.begin() + to); Seq psort(part); std::sort(psort.begin(), psort.end());
        Seq after;
        if (ch.choose(2)) {
            op("sort", n, from, to);
            LIB(H::sort(v.begin() + (int)from, v.begin() + (int)to));
            for (size_t k = 0; k < n; k++) after.push_back(Val<T>::key(v[(int)k]));
            for (size_t k = from + 1; k < to; k++) EXPECT(C_MODEL, "sort-order", !KC::before(after[k], after[k - 1]), "sort leaves %d after %d", after[k], after[k - 1]);
        } else {
            op("build", n, from, to);
            LIB(H h = H::build(v.begin() + (int)from, v.begin() + (int)to);
                Seq hc; size_t q = 0; for (auto it = h.begin(); it != h.end() && q <= n; it++, q++) hc.push_back(Val<T>::key(*it));
                std::sort(hc.begin(), hc.end()); EXPECT(C_MODEL, "build-conservation", hc == psort, "build returns a heap which does not hold the given elements");
                if (!psort.empty()) check_top(psort, Val<T>::key(h.top()));
                Seq left(psort);
                while (!h.empty() && !left.empty()) { int x = Val<T>::key(h.top()); check_top(left, x); h.pop(); left.erase(std::lower_bound(left.begin(), left.end(), x)); }
                EXPECT(C_MODEL, "build-conservation", left.empty() && h.empty(), "draining a built heap does not yield every element"));
            for (size_t k = 0; k < n; k++) after.push_back(Val<T>::key(v[(int)k]));
            heap_shaped("build-order", Seq(after.begin() + from, after.begin() + to));
        }
        for (size_t k = 0; k < n; k++) if (k < from || k >= to) EXPECT(C_MODEL, "outside-range", after[k] == s[k], "an element outside the given range changed");
        Seq pa(after.begin() + from, after.begin() + to); std::sort(pa.begin(), pa.end());
        EXPECT(C_MODEL, "range-conservation", pa == psort, "the range does not hold the same elements as before");
        removal();
    }
    void from_range(int i) {
        size_t n = ch.choose((unsigned)maxsize + 1); Seq s = raw(n);
        Vec_ v; for (size_t k = 0; k < n; k++) { T t = Val<T>::make(s[k]); LIB(v.push_back(t)); }
        op("construct_range", i, n); this->kill(i);
        H *p = 0; void *q = this->mem(); LIB(p = new (q) H(v.begin(), v.end())); o[i] = p;
        for (size_t k = 0; k < n; k++) EXPECT(C_MODEL, "range-unchanged", Val<T>::key(v[(int)k]) == s[k], "construction from a range changed the range");
        std::sort(s.begin(), s.end()); m[i] = s; removal();
    }
    void step() {
        int i = (int)ch.choose(K);
        unsigned r = this->roll(maxsize);
        if ((groups & OG_COPY) && r < 8) return this->copy_op(i);
        if ((groups & OG_MOVE) && r >= 8 && r < 16) return this->move_op(i);
        if ((groups & OG_ALIAS) && r >= 16 && r < 30 && !m[i].empty()) {
            int k = (int)ch.choose((unsigned)m[i].size()); auto it = o[i]->begin(); for (int j = 0; j < k; j++) it++;
            int x = Val<T>::key(*it); op("push_own", i, k); const T &ref = *it; LIB(o[i]->push(ref)); ins(m[i], x); verify(i, true); return;
        }
        if (r >= 98) { this->recreate_op(i); return; }
        if (r >= 94) from_range(i);
        else if (r >= 88) statics();
        else if (m[i].empty() || ph[i].want_grow(ch, m[i].size(), maxsize)) push(i, draw());
        else pop(i);
        verify(i, m[i].size() < 24 ? ch.choose(2) == 0 : ch.choose(40) == 0);
    }
    void step_ex() {
        int i = (int)ch.choose(K), j = K - 1 - i; bool cm = (groups & (OG_COPY | OG_MOVE)) != 0;
        switch (ch.choose(cm ? 6 : 4)) {
        case 0: push(i, 1); break;
        case 1: push(i, 2); break;
        case 2: push(i, 3); break;
        case 3: if (m[i].empty()) { op("noop"); break; } pop(i); break;
        case 4: if (groups & OG_COPY) { op("copy_assign", i, j); LIB(*o[i] = *(const H *)o[j]); m[i] = m[j]; removal(); break; } // fall through
        case 5: if (groups & OG_MOVE) { op("move_assign", i, j); LIB(*o[i] = dstruct::move(*o[j])); if (i != j) { m[i] = m[j]; m[j].clear(); } removal(); break; }
                op("noop"); break;
        }
        if (ch.unseen()) for (int k = 0; k < K; k++) verify(k, true);
    }
    void drain(int i) { while (!m[i].empty()) { pop(i); EXPECT_EQ(C_MODEL, "size", o[i]->size(), m[i].size()); } EXPECT(C_MODEL, "empty", o[i]->empty(), "a drained heap is not empty"); }
    void finish() { for (int i = 0; i < K; i++) { verify(i, true); drain(i); verify(i, true); } }
};
template <class T, class KC, class A> static void rnd(Chooser &ch) {
    HeapDrv<T, KC, A> d(ch, 1 + ch.choose(3), 1 + ch.choose(ch.choose(3) ? 10 : 60), O().opmask);
    int n = 20 + (int)ch.choose(60);
    while (n--) d.step();
    d.finish();
}
template <class T, class KC, class A> static void big(Chooser &ch) {
    HeapDrv<T, KC, A> d(ch, 1, 700, O().opmask);
    for (int i = 0; i < 2000; i++) d.step();
    d.finish();
}
template <class T, class KC, class A, int D> static void exh(Chooser &ch) {
    bool cm = (O().opmask & (OG_COPY | OG_MOVE)) != 0;
    HeapDrv<T, KC, A> d(ch, cm ? 2 : 1, 1000, O().opmask);
    int n = D - (cm ? 4 : 0) + O().depth_bonus;
    while (n--) d.step_ex();
    if (ch.unseen() && !cm) d.finish();
}
int main(int argc, char **argv) {
    typedef VH_ALLOC A;
#ifndef VH_NO_WATCH
    watch_malloc();
#endif
#if PART(0)
    add("random", "minheap<int>", 2500, rnd<int, KLess<int>, A>);
    add("random", "maxheap<int>", 2500, rnd<int, KGreater<int>, A>);
    add("random", "minheap<Tracked>", 1500, rnd<Tracked, KLess<Tracked>, A>);
    add("random", "maxheap<Tracked>/up", 1000, rnd<Tracked, KGreater<Tracked>, A>, VA_UP);
    add("exhaustive", "minheap<int>/exhaustive", 0, exh<int, KLess<int>, A, 8>);
    add("exhaustive", "maxheap<Tracked>/exhaustive", 0, exh<Tracked, KGreater<Tracked>, A, 7>);
    add("large", "minheap<int>/large", 6, big<int, KLess<int>, A>);
#endif
#if PART(1)
    add("random", "heap<int,ties>", 1500, rnd<int, KTie, A>);
    add("random", "heap<Tracked,custom>/down", 800, rnd<Tracked, KRev, A>, VA_DOWN);
    add("random", "minheap<double>", 500, rnd<double, KLess<double>, A>);
    add("random", "maxheap<ptr>", 500, rnd<const char *, KGreater<const char *>, A>);
    add("random", "maxheap<bool>", 400, rnd<bool, KGreater<bool>, A>);
    add("random", "minheap<Big>", 400, rnd<Big, KLess<Big>, A>);
    add("random", "minheap<Fat>", 200, rnd<Fat, KLess<Fat>, A>);
    add("random", "maxheap<Tiny>", 500, rnd<Tiny, KGreater<Tiny>, A>);
    add("large", "heap<int,ties>/large", 4, big<int, KTie, A>);
#endif
    return vh_main(argc, argv);
}
