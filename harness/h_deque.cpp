// DoubleEndedQueue against a sequence model, for several block sizes.
#include "pool.hpp"
using namespace vh;

template <class T, int N, class A>
struct DeqDrv : Pool<dstruct::DoubleEndedQueue<T, N, A>, Seq, DeqDrv<T, N, A> > {
    typedef dstruct::DoubleEndedQueue<T, N, A> Q;
    typedef Pool<Q, Seq, DeqDrv<T, N, A> > P;
    using P::o; using P::m; using P::ch; using P::K;
    size_t maxsize; unsigned groups; Phase ph[4]; int bias[4];
    Vec<const void *> ad[4];

    DeqDrv(Chooser &c, int k, size_t mx, unsigned g) : P(c, k), maxsize(mx), groups(g) { for (int i = 0; i < 4; i++) bias[i] = 50; this->create_all(); }
    Q *fresh(void *p) { return new (p) Q; }
    Seq fresh_model() { return Seq(); }

    void verify(int i, bool full) {
        InLib in;
        const Q &q = *o[i]; const Seq &s = m[i];
        EXPECT_EQ(C_MODEL, "size", q.size(), s.size());
        EXPECT_EQ(C_MODEL, "empty", q.empty(), s.empty());
        EXPECT(C_MODEL, "capacity", q.capacity() >= q.size(), "capacity below size");
        note_size(s.size());
        int n = (int)s.size();
        if (n) {
            EXPECT_EQ(C_MODEL, "front", Val<T>::key(q.front()), s[0]);
            EXPECT_EQ(C_MODEL, "back", Val<T>::key(q.back()), s.back());
            int k = (int)(G().ops % n);
            EXPECT_EQ(C_MODEL, "index", Val<T>::key(q[k]), s[k]);
            EXPECT_EQ(C_MODEL, "negative-index", Val<T>::key(q[-1 - k]), s[n - 1 - k]);
        }
        if (!full) return;
        if (IsTracked<T>::value) this->check_live(0, 0);
        if (n <= 64) for (int k = 0; k < n; k++) {
            EXPECT_EQ(C_MODEL, "index", Val<T>::key(q[k]), s[k]);
            EXPECT_EQ(C_MODEL, "negative-index", Val<T>::key(q[k - n]), s[k]);
        }
        walk<T>("iterate", q.begin(), q.end(), s, true);
        walk<T>("iterate-pre", q.begin(), q.end(), s, false);
        walk_back<T>("iterate-back", q.begin(), q.end(), s, G().ops & 1);
        EXPECT(C_MODEL, "iterator-empty", (q.begin() == q.end()) == (n == 0), "begin()==end() does not tell whether the deque is empty");
        if (n) {
            int k = (int)(G().ops % n);
            EXPECT_EQ(C_MODEL, "iterator-plus", Val<T>::key(*(q.begin() + k)), s[k]);
            EXPECT_EQ(C_MODEL, "iterator-minus", Val<T>::key(*(q.end() - (k + 1))), s[n - 1 - k]);
            EXPECT(C_MODEL, "iterator-plus", q.begin() + n == q.end(), "begin()+size() is not end()");
            EXPECT(C_MODEL, "iterator-minus", q.end() - n == q.begin(), "end()-size() is not begin()");
            EXPECT(C_MODEL, "iterator-plus", q.begin() + k - k == q.begin(), "it+k-k is not it");
            EXPECT_EQ(C_MODEL, "iterator-minus-negative", Val<T>::key(*(q.begin() - (-k))), s[k]);
            EXPECT_EQ(C_MODEL, "iterator-plus-negative", Val<T>::key(*(q.end() + (-k - 1))), s[n - 1 - k]);
            { auto a = q.begin() + k, b = a, c = a; EXPECT(C_MODEL, "iterator-post", b++ == a && (k + 1 == n ? b == q.end() : Val<T>::key(*b) == s[k + 1]) && --b == c, "it++ and --it do not undo each other"); }
        }
        if (ad[i].size() == s.size()) {
            size_t k = 0;
            for (auto it = q.begin(); it != q.end(); ++it, ++k)
                EXPECT(C_STABLE, "element-moved", (const void *)it.operator->() == ad[i][k], "the element at position %zu is at another address than when it was pushed", k);
        }
        note_state(mix(mix(hash_seq(s), q.capacity()), N));
    }
    void learn(int i) { ad[i].clear(); const Q &q = *o[i]; size_t n = 0; for (auto it = q.begin(); it != q.end() && n <= m[i].size(); it++, n++) ad[i].push_back((const void *)it.operator->()); }
    void do_push(int i, bool back, int x) {
        T t = Val<T>::make(x); Q &q = *o[i];
        if (back) {
            if (ch.choose(2)) { op("push_back", i, x); LIB(q.push_back(t)); } else { op("push", i, x); LIB(q.push(t)); }
            m[i].push_back(Val<T>::norm(x));
            ad[i].push_back((const void *)&q[-1]);
        } else {
            op("push_front", i, x); LIB(q.push_front(t)); m[i].insert(m[i].begin(), Val<T>::norm(x));
            ad[i].insert(ad[i].begin(), (const void *)&q[0]);
        }
    }
    void do_pop(int i, bool back) {
        Q &q = *o[i]; removal();
        if (back) { op("pop_back", i); LIB(q.pop_back()); m[i].pop_back(); ad[i].pop_back(); }
        else {
            if (ch.choose(2)) { op("pop_front", i); LIB(q.pop_front()); } else { op("pop", i); LIB(q.pop()); }
            m[i].erase(m[i].begin()); ad[i].erase(ad[i].begin());
        }
    }
    void clear(int i) { op("clear", i); LIB(o[i]->clear()); m[i].clear(); ad[i].clear(); removal(); }
    void alias_op(int i) {
        Q &q = *o[i]; Seq &s = m[i];
        if (s.empty()) { do_push(i, ch.choose(2), this->val()); return; }
        int k = (int)ch.choose((unsigned)s.size()); int x = s[k];
        if (ch.choose(2)) { op("push_back_own", i, k); LIB(q.push_back(q[k])); s.push_back(x); ad[i].push_back((const void *)&q[-1]); }
        else { op("push_front_own", i, k); LIB(q.push_front(q[k])); s.insert(s.begin(), x); ad[i].insert(ad[i].begin(), (const void *)&q[0]); }
    }
    void step() {
        int i = (int)ch.choose(K);
        unsigned r = this->roll(maxsize);
        if ((groups & OG_COPY) && r < 6) { for (int j = 0; j < K; j++) ad[j].clear(); this->copy_op(i); for (int j = 0; j < K; j++) learn(j); return; }
        if ((groups & OG_MOVE) && r >= 6 && r < 12) { for (int j = 0; j < K; j++) ad[j].clear(); this->move_op(i); for (int j = 0; j < K; j++) learn(j); return; }
        if ((groups & OG_ALIAS) && r >= 16 && r < 30) { alias_op(i); verify(i, ch.choose(2) == 0); return; }
        if (r >= 98) { ad[i].clear(); this->recreate_op(i); return; }
        if (r == 97) clear(i);
        else if (m[i].empty() || ph[i].want_grow(ch, m[i].size(), maxsize)) do_push(i, (int)ch.choose(100) < bias[i], this->val());
        else do_pop(i, (int)ch.choose(100) >= bias[i]);         // push at one side, pop at the other: sliding window
        if (ch.choose(25) == 0) { static const int bs[] = { 0, 10, 50, 90, 100 }; bias[i] = bs[ch.choose(5)]; }
        verify(i, m[i].size() < 24 ? ch.choose(2) == 0 : ch.choose(30) == 0);
        if (m[i].size() < 40 && ch.choose(20) == 0) { op("algorithms", i); const Q &q = *o[i]; algo<T>(q.begin(), q.end(), m[i], m[i].empty() || ch.choose(3) == 0 ? 999983 : m[i][ch.choose((unsigned)m[i].size())]); }
    }
    void step_ex() {
        int i = (int)ch.choose(K), j = K - 1 - i;
        bool cm = (groups & (OG_COPY | OG_MOVE)) != 0;
        switch (ch.choose(cm ? 7 : 4)) {
        case 0: { int x = this->val(); T t = Val<T>::make(x); op("push_back", i, x); LIB(o[i]->push_back(t)); m[i].push_back(Val<T>::norm(x)); break; }
        case 1: { int x = this->val(); T t = Val<T>::make(x); op("push_front", i, x); LIB(o[i]->push_front(t)); m[i].insert(m[i].begin(), Val<T>::norm(x)); break; }
        case 2: if (m[i].empty()) { op("clear", i); LIB(o[i]->clear()); break; } op("pop_front", i); LIB(o[i]->pop_front()); m[i].erase(m[i].begin()); removal(); break;
        case 3: if (m[i].empty()) { op("clear", i); LIB(o[i]->clear()); break; } op("pop_back", i); LIB(o[i]->pop_back()); m[i].pop_back(); removal(); break;
        case 4: op("clear", i); LIB(o[i]->clear()); m[i].clear(); removal(); break;
        case 5: if (groups & OG_COPY) { op("copy_assign", i, j); LIB(*o[i] = *(const Q *)o[j]); m[i] = m[j]; removal(); break; } // fall through
        case 6: if (groups & OG_MOVE) { op("move_assign", i, j); LIB(*o[i] = dstruct::move(*o[j])); if (i != j) { m[i] = m[j]; m[j].clear(); } removal(); break; }
                op("noop"); break;
        }
        for (int k = 0; k < K; k++) ad[k].clear();
        if (ch.unseen()) for (int k = 0; k < K; k++) verify(k, true);
    }
    void finish() { for (int i = 0; i < K; i++) verify(i, true); }
};
template <class T, int N, class A> static void rnd(Chooser &ch) {
    unsigned r = ch.choose(4);
    DeqDrv<T, N, A> d(ch, 1 + ch.choose(3), 1 + ch.choose(r == 0 ? 6 : r == 1 ? 4 * N + 4 : r == 2 ? 12 * N + 8 : 30), O().opmask);
    int n = 30 + (int)ch.choose(90);
    while (n--) d.step();
    d.finish();
}
template <class T, int N, class A> static void big(Chooser &ch) {
    DeqDrv<T, N, A> d(ch, 1, 300 + ch.choose(700), O().opmask);
    for (int i = 0; i < 2500; i++) d.step();
    d.finish();
}
template <class T, int N, class A, int D> static void exh(Chooser &ch) {
    bool cm = (O().opmask & (OG_COPY | OG_MOVE)) != 0;
    DeqDrv<T, N, A> d(ch, cm ? 2 : 1, 1000, O().opmask);
    int n = D - (cm ? 4 : 0) + O().depth_bonus;
    while (n--) d.step_ex();
}
int main(int argc, char **argv) {
    typedef VH_ALLOC A;
#ifndef VH_NO_WATCH
    watch_malloc();
#endif
#if PART(0)
    add("random", "deque<int,32>", 1500, rnd<int, 32, A>);
    add("random", "deque<int,1>", 1500, rnd<int, 1, A>);
    add("random", "deque<int,2>", 1500, rnd<int, 2, A>);
    add("random", "deque<int,7>", 1000, rnd<int, 7, A>);
#endif
#if PART(1)
    add("random", "deque<Tracked,1>", 1500, rnd<Tracked, 1, A>);
    add("random", "deque<Tracked,3>", 1500, rnd<Tracked, 3, A>);
    add("random", "deque<Tracked,32>", 1000, rnd<Tracked, 32, A>);
    add("random", "deque<Tracked,2>/down", 1000, rnd<Tracked, 2, A>, VA_DOWN);
    add("random", "deque<Tracked,2>/up", 1000, rnd<Tracked, 2, A>, VA_UP);
    add("exhaustive", "deque<Tracked,2>/exhaustive", 0, exh<Tracked, 2, A, 8>);
    add("exhaustive", "deque<Tracked,1>/exhaustive/up", 0, exh<Tracked, 1, A, 8>, VA_UP);
    add("large", "deque<Tracked,150>/large", 3, big<Tracked, 150, A>);
    add("large", "deque<Tracked,4>/large", 4, big<Tracked, 4, A>);
#endif
#if PART(2)
    add("random", "deque<char,4>", 500, rnd<char, 4, A>);
    add("random", "deque<bool,3>", 400, rnd<bool, 3, A>);
    add("random", "deque<Big,5>", 300, rnd<Big, 5, A>);
    add("random", "deque<Fat,3>", 200, rnd<Fat, 3, A>);
    add("random", "deque<Tiny,4>", 400, rnd<Tiny, 4, A>);
    add("random", "deque<String,4>", 500, rnd<Str, 4, A>);
    add("random", "deque<ptr,2>", 300, rnd<const char *, 2, A>);
#ifndef VH_SMALL_ALIGN
    add("random", "deque<longdouble,3>", 300, rnd<long double, 3, A>);
#endif
#endif
#if PART(0)
    // neighbouring blocks: the end of one block is the address of another one
    add("random", "deque<int,2>/up", 1500, rnd<int, 2, A>, VA_UP);
    add("random", "deque<int,2>/down", 1500, rnd<int, 2, A>, VA_DOWN);
    add("random", "deque<int,4>/down", 1500, rnd<int, 4, A>, VA_DOWN);
    add("exhaustive", "deque<int,1>/exhaustive", 0, exh<int, 1, A, 8>);
    add("exhaustive", "deque<int,2>/exhaustive/down", 0, exh<int, 2, A, 8>, VA_DOWN);
    add("large", "deque<int,300>/large", 3, big<int, 300, A>);
    add("large", "deque<int,32>/large", 6, big<int, 32, A>);
    add("large", "deque<int,1>/large", 4, big<int, 1, A>);
#endif
    return vh_main(argc, argv);
}
