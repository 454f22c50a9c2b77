// MinStack / MaxStack / XValueStack: a LIFO stack which always knows its extreme value.
#include "pool.hpp"
using namespace vh;

// key comparisons used by the model; the library gets the matching comparator type C
template <class T> struct KLess { typedef dstruct::less<T> Cmp; static bool before(int a, int b) { return a < b; } };
template <class T> struct KGreater { typedef dstruct::greater<T> Cmp; static bool before(int a, int b) { return a > b; } };
struct TieCmp { bool operator()(int a, int b) const { return a / 4 < b / 4; } };
struct KTie { typedef TieCmp Cmp; static bool before(int a, int b) { return a / 4 < b / 4; } };
struct RevCmp { bool operator()(const Tracked &a, const Tracked &b) const { return a.k % 16 < b.k % 16 || (a.k % 16 == b.k % 16 && a.k > b.k); } };
struct KRev { typedef RevCmp Cmp; static bool before(int a, int b) { return a % 16 < b % 16 || (a % 16 == b % 16 && a > b); } };

template <class T, class KC, class Back>
struct XDrv : Pool<dstruct::stack::XValueStack<T, typename KC::Cmp, dstruct::adapter::Stack<T, Back> >, Seq, XDrv<T, KC, Back> > {
    typedef dstruct::stack::XValueStack<T, typename KC::Cmp, dstruct::adapter::Stack<T, Back> > X;
    typedef Pool<X, Seq, XDrv<T, KC, Back> > P;
    using P::o; using P::m; using P::ch; using P::K;
    size_t maxsize; unsigned groups; Phase ph[4]; unsigned range;
    XDrv(Chooser &c, int k, size_t mx, unsigned g) : P(c, k), maxsize(mx), groups(g) { static const unsigned rs[] = { 2, 3, 6, 40, 1000 }; range = rs[c.ex ? 1 : c.choose(5)]; this->create_all(); }
    X *fresh(void *p) { return new (p) X; }
    Seq fresh_model() { return Seq(); }
    void verify(int i, bool full) {
        InLib in;
        const X &q = *o[i]; const Seq &s = m[i];
        EXPECT_EQ(C_MODEL, "empty", q.empty(), s.empty());
        note_size(s.size());
        if (!s.empty()) {
            EXPECT_EQ(C_MODEL, "top", Val<T>::key(q.top()), s.back());
            int x = Val<T>::key(q.getXValue()); bool member = false;
            for (size_t k = 0; k < s.size(); k++) {
                member = member || s[k] == x;
                EXPECT(C_MODEL, "extreme", !KC::before(s[k], x), "getXValue() is %d although the stack holds %d", x, s[k]);
            }
            EXPECT(C_MODEL, "extreme-member", member, "getXValue() is %d, which is not on the stack", x);
        }
        if (!full) return;
        if (IsTracked<T>::value) this->check_live(0, 3, 1);
        walk<T>("iterate", q.begin(), q.end(), s, G().ops & 1);
        note_state(hash_seq(s));
    }
    int draw() { if (!ch.ex && ch.choose(40) == 0) return odd_value(ch.choose(6)); return 1 + (int)ch.choose(range) - (int)range / 3; }
    void push(int i, int x) { T t = Val<T>::make(x); op("push", i, x); LIB(o[i]->push(t)); m[i].push_back(Val<T>::norm(x)); }
    void pop(int i) { op("pop", i); LIB(o[i]->pop()); m[i].pop_back(); removal(); }
    void step() {
        int i = (int)ch.choose(K);
        unsigned r = this->roll(maxsize);
        if ((groups & OG_COPY) && r < 8) return this->copy_op(i);
        if ((groups & OG_MOVE) && r >= 8 && r < 16) return this->move_op(i);
        if ((groups & OG_ALIAS) && r >= 16 && r < 30 && !m[i].empty()) {
            int k = (int)ch.choose((unsigned)m[i].size()); auto it = o[i]->begin(); for (int j = 0; j < k; j++) it++;
            op("push_own", i, k); const T &ref = *it; LIB(o[i]->push(ref)); m[i].push_back(m[i][k]); verify(i, true); return;
        }
        if (r >= 98) { this->recreate_op(i); return; }
        if (r >= 96) { op("clear", i); LIB(o[i]->clear()); m[i].clear(); removal(); }
        else if (m[i].empty() || ph[i].want_grow(ch, m[i].size(), maxsize)) push(i, draw());
        else pop(i);
        verify(i, m[i].size() < 24 ? ch.choose(2) == 0 : ch.choose(40) == 0);
    }
    void step_ex() {
        int i = (int)ch.choose(K), j = K - 1 - i; bool cm = (groups & (OG_COPY | OG_MOVE)) != 0;
        switch (ch.choose(cm ? 7 : 5)) {
        case 0: push(i, 1); break;
        case 1: push(i, 2); break;
        case 2: push(i, 3); break;
        case 3: if (m[i].empty()) { op("noop"); break; } pop(i); break;
        case 4: if (m[i].size() < 2) { op("clear", i); LIB(o[i]->clear()); m[i].clear(); break; } pop(i); pop(i); break;
        case 5: if (groups & OG_COPY) { op("copy_assign", i, j); LIB(*o[i] = *(const X *)o[j]); m[i] = m[j]; removal(); break; } // fall through
        case 6: if (groups & OG_MOVE) { op("move_assign", i, j); LIB(*o[i] = dstruct::move(*o[j])); if (i != j) { m[i] = m[j]; m[j].clear(); } removal(); break; }
                op("noop"); break;
        }
        if (ch.unseen()) for (int k = 0; k < K; k++) verify(k, true);
    }
    void finish() { for (int i = 0; i < K; i++) { verify(i, true); while (!m[i].empty()) { pop(i); verify(i, false); } } }
};
template <class T, class KC, class B> static void rnd(Chooser &ch) {
    XDrv<T, KC, B> d(ch, 1 + ch.choose(3), 1 + ch.choose(ch.choose(3) ? 8 : 40), O().opmask);
    int n = 20 + (int)ch.choose(60);
    while (n--) d.step();
    d.finish();
}
template <class T, class KC, class B> static void big(Chooser &ch) {
    XDrv<T, KC, B> d(ch, 1, 500, O().opmask);
    for (int i = 0; i < 2000; i++) d.step();
    d.finish();
}
template <class T, class KC, class B, int D> static void exh(Chooser &ch) {
    bool cm = (O().opmask & (OG_COPY | OG_MOVE)) != 0;
    XDrv<T, KC, B> d(ch, cm ? 2 : 1, 1000, O().opmask);
    int n = D - (cm ? 4 : 0) + O().depth_bonus;
    while (n--) d.step_ex();
}
int main(int argc, char **argv) {
    typedef VH_ALLOC A;
    using namespace dstruct;
#ifndef VH_NO_WATCH
    watch_malloc();
#endif
    add("random", "minstack<int>", 3000, rnd<int, KLess<int>, Vector<int, A> >);
    add("random", "maxstack<int>", 3000, rnd<int, KGreater<int>, Vector<int, A> >);
    add("random", "minstack<Tracked>", 2000, rnd<Tracked, KLess<Tracked>, Vector<Tracked, A> >);
    add("random", "maxstack<Tracked>/up", 1000, rnd<Tracked, KGreater<Tracked>, Vector<Tracked, A> >, VA_UP);
    add("random", "xstack<int,ties>", 2000, rnd<int, KTie, Vector<int, A> >);
    add("random", "xstack<Tracked,custom>/down", 1000, rnd<Tracked, KRev, Vector<Tracked, A> >, VA_DOWN);
    add("random", "minstack<double,dlist>", 700, rnd<double, KLess<double>, DoublyLinkedList<double, A> >);
    add("random", "minstack<bool>", 500, rnd<bool, KLess<bool>, Vector<bool, A> >);
    add("random", "minstack<Fat>", 300, rnd<Fat, KLess<Fat>, Vector<Fat, A> >);
    add("random", "maxstack<Tiny>", 400, rnd<Tiny, KGreater<Tiny>, Vector<Tiny, A> >);
    add("random", "maxstack<ptr>", 500, rnd<const char *, KGreater<const char *>, Vector<const char *, A> >);
    add("exhaustive", "minstack<int>/exhaustive", 0, exh<int, KLess<int>, Vector<int, A>, 7>);
    add("exhaustive", "maxstack<Tracked>/exhaustive", 0, exh<Tracked, KGreater<Tracked>, Vector<Tracked, A>, 7>);
    add("large", "minstack<int>/large", 6, big<int, KLess<int>, Vector<int, A> >);
    return vh_main(argc, argv);
}
