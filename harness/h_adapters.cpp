// Queue and Stack adapters over every container that can back them.
#include "pool.hpp"
using namespace vh;

template <class C> struct Indexable { enum { value = 0 }; template <class Q> static void check(Q &, const Seq &, int) {} };
template <class T, size_t N, class A> struct Indexable<dstruct::DoubleEndedQueue<T, N, A> > {
    enum { value = 1 };
    template <class Q> static void check(Q &q, const Seq &s, int k) {
        EXPECT_EQ(C_MODEL, "index", Val<T>::key(q[k]), s[k]);
        EXPECT_EQ(C_MODEL, "negative-index", Val<T>::key(q[-1 - k]), s[s.size() - 1 - k]);
    }
};

// FIFO = true: Queue, otherwise Stack
template <class T, class C, bool FIFO> struct AdSel { typedef dstruct::adapter::Queue<T, C> X; };
template <class T, class C> struct AdSel<T, C, false> { typedef dstruct::adapter::Stack<T, C> X; };

template <class T, class C, bool FIFO>
struct AdDrv : Pool<typename AdSel<T, C, FIFO>::X, Seq, AdDrv<T, C, FIFO> > {
    typedef typename AdSel<T, C, FIFO>::X X;
    typedef Pool<X, Seq, AdDrv<T, C, FIFO> > P;
    using P::o; using P::m; using P::ch; using P::K;
    size_t maxsize; unsigned groups; Phase ph[4];
    AdDrv(Chooser &c, int k, size_t mx, unsigned g) : P(c, k), maxsize(mx), groups(g) { this->create_all(); }
    X *fresh(void *p) { return new (p) X; }
    Seq fresh_model() { return Seq(); }
    template <class Q> static void ends(const dstruct::adapter::Queue<T, Q> &q, const Seq &s) {
        EXPECT_EQ(C_MODEL, "front", Val<T>::key(q.front()), s[0]);
        EXPECT_EQ(C_MODEL, "back", Val<T>::key(q.back()), s.back());
    }
    template <class Q> static void ends(const dstruct::adapter::Stack<T, Q> &q, const Seq &s) { EXPECT_EQ(C_MODEL, "top", Val<T>::key(q.top()), s.back()); }
    template <class Q> static void index(dstruct::adapter::Queue<T, Q> &q, const Seq &s, int k) { Indexable<Q>::check(q, s, k); }
    template <class Q> static void index(dstruct::adapter::Stack<T, Q> &, const Seq &, int) {}
    template <class Q> static bool clear(dstruct::adapter::Queue<T, Q> &) { return false; }
    template <class Q> static bool clear(dstruct::adapter::Stack<T, Q> &q) { q.clear(); return true; }
    void verify(int i, bool full) {
        InLib in;
        X &q = *o[i]; const X &cq = q; const Seq &s = m[i];
        EXPECT_EQ(C_MODEL, "size", cq.size(), s.size());
        EXPECT_EQ(C_MODEL, "empty", cq.empty(), s.empty());
        note_size(s.size());
        if (!s.empty()) { ends(cq, s); index(q, s, (int)(G().ops % s.size())); }
        if (!full) return;
        if (IsTracked<T>::value) this->check_live(0, 1);
        walk<T>("iterate", cq.begin(), cq.end(), s, G().ops & 1);
        note_state(hash_seq(s));
    }
    void push(int i) { int x = this->val(); T t = Val<T>::make(x); op("push", i, x); LIB(o[i]->push(t)); m[i].push_back(Val<T>::norm(x)); }
    void pop(int i) { op("pop", i); LIB(o[i]->pop()); if (FIFO) m[i].erase(m[i].begin()); else m[i].pop_back(); removal(); }
    void step() {
        int i = (int)ch.choose(K);
        unsigned r = this->roll(maxsize);
        if ((groups & OG_COPY) && r < 8) return this->copy_op(i);
        if ((groups & OG_MOVE) && r >= 8 && r < 16) return this->move_op(i);
        if ((groups & OG_ALIAS) && r >= 16 && r < 30 && !m[i].empty()) {
            int k = (int)ch.choose((unsigned)m[i].size()); auto it = o[i]->begin(); for (int j = 0; j < k; j++) it++;
            op("push_own", i, k); const T &ref = *it; LIB(o[i]->push(ref)); m[i].push_back(m[i][k]); verify(i, true); return;
        }
        if (r >= 97) { this->recreate_op(i); return; }
        if (r >= 94) { op("clear", i); bool done; LIB(done = clear(*o[i])); if (done) { m[i].clear(); removal(); } }
        else if (m[i].empty() || ph[i].want_grow(ch, m[i].size(), maxsize)) push(i);
        else pop(i);
        verify(i, m[i].size() < 24 ? ch.choose(2) == 0 : ch.choose(40) == 0);
        if (m[i].size() < 30 && ch.choose(15) == 0) { op("algorithms", i); const X &q = *o[i]; algo<T>(q.begin(), q.end(), m[i], m[i].empty() || ch.choose(3) == 0 ? 999983 : m[i][ch.choose((unsigned)m[i].size())]); }
    }
    void step_ex() {
        int i = (int)ch.choose(K), j = K - 1 - i; bool cm = (groups & (OG_COPY | OG_MOVE)) != 0;
        switch (ch.choose(cm ? 5 : 3)) {
        case 0: push(i); break;
        case 1: if (m[i].empty()) { op("noop"); break; } pop(i); break;
        case 2: for (int k = 0; k < 3; k++) push(i); break;
        case 3: if (groups & OG_COPY) { op("copy_assign", i, j); LIB(*o[i] = *(const X *)o[j]); m[i] = m[j]; removal(); break; } // fall through
        case 4: if (groups & OG_MOVE) { op("move_assign", i, j); LIB(*o[i] = dstruct::move(*o[j])); if (i != j) { m[i] = m[j]; m[j].clear(); } removal(); break; }
                op("noop"); break;
        }
        if (ch.unseen()) for (int k = 0; k < K; k++) verify(k, true);
    }
    void finish() { for (int i = 0; i < K; i++) { verify(i, true); while (!m[i].empty() && groups == OG_BASE) { pop(i); verify(i, false); } } }
};
template <class T, class C, bool F> static void rnd(Chooser &ch) {
    AdDrv<T, C, F> d(ch, 1 + ch.choose(3), 1 + ch.choose(ch.choose(3) ? 10 : 90), O().opmask);
    int n = 20 + (int)ch.choose(100);
    while (n--) d.step();
    d.finish();
}
template <class T, class C, bool F> static void big(Chooser &ch) {
    AdDrv<T, C, F> d(ch, 1, 1200, O().opmask);
    for (int i = 0; i < 4000; i++) d.step();
    d.finish();
}
template <class T, class C, bool F, int D> static void exh(Chooser &ch) {
    bool cm = (O().opmask & (OG_COPY | OG_MOVE)) != 0;
    AdDrv<T, C, F> d(ch, cm ? 2 : 1, 1000, O().opmask);
    int n = D - (cm ? 5 : 0) + O().depth_bonus;
    while (n--) d.step_ex();
}
int main(int argc, char **argv) {
    typedef VH_ALLOC A;
    using namespace dstruct;
#ifndef VH_NO_WATCH
    watch_malloc();
#endif
#if PART(0)
    add("random", "queue<int,deque32>", 2000, rnd<int, DoubleEndedQueue<int, 32, A>, true>);
    add("random", "queue<Tracked,deque2>", 2000, rnd<Tracked, DoubleEndedQueue<Tracked, 2, A>, true>);
    add("random", "queue<int,dlist>", 1500, rnd<int, DoublyLinkedList<int, A>, true>);
    add("random", "queue<Tracked,slist>", 1500, rnd<Tracked, SinglyLinkedList<Tracked, A>, true>);
    add("random", "queue<bool,slist>", 500, rnd<bool, SinglyLinkedList<bool, A>, true>);
    add("random", "queue<String,deque3>/up", 500, rnd<Str, DoubleEndedQueue<Str, 3, A>, true>, VA_UP);
    add("exhaustive", "queue<int,deque2>/exhaustive", 0, exh<int, DoubleEndedQueue<int, 2, A>, true, 9>, VA_DOWN);
    add("exhaustive", "queue<int,slist>/exhaustive", 0, exh<int, SinglyLinkedList<int, A>, true, 9>);
    add("random", "queue<Tiny,deque4>", 400, rnd<Tiny, DoubleEndedQueue<Tiny, 4, A>, true>);
    add("large", "queue<int>/large", 5, big<int, DoubleEndedQueue<int, 32, A>, true>);
#endif
#if PART(1)
    add("random", "stack<int,vector>", 2000, rnd<int, Vector<int, A>, false>);
    add("random", "stack<Tracked,vector>", 2000, rnd<Tracked, Vector<Tracked, A>, false>);
    add("random", "stack<Tracked,dlist>", 1500, rnd<Tracked, DoublyLinkedList<Tracked, A>, false>);
    add("random", "stack<int,deque3>/down", 1500, rnd<int, DoubleEndedQueue<int, 3, A>, false>, VA_DOWN);
    add("random", "stack<bool,vector>", 500, rnd<bool, Vector<bool, A>, false>);
    add("random", "stack<Vector,vector>", 500, rnd<IntVec, Vector<IntVec, A>, false>);
    add("exhaustive", "stack<Tracked,vector>/exhaustive", 0, exh<Tracked, Vector<Tracked, A>, false, 9>);
    add("exhaustive", "stack<int,deque1>/exhaustive", 0, exh<int, DoubleEndedQueue<int, 1, A>, false, 9>);
    add("random", "stack<Fat,vector>", 300, rnd<Fat, Vector<Fat, A>, false>);
    add("large", "stack<Tracked>/large", 5, big<Tracked, Vector<Tracked, A>, false>);
#endif
    return vh_main(argc, argv);
}
