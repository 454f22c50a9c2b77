// Singly and doubly linked lists against a sequence model.
#include "pool.hpp"
using namespace vh;

template <class L> struct ListTraits;
template <class T, class A> struct ListTraits<dstruct::SinglyLinkedList<T, A> > {
    typedef dstruct::SinglyLinkedList<T, A> L;
    enum { bidir = 0 };
    static const char *popb() { return "_pop_back"; }
    static void pop_back(L &l) { l._pop_back(); }
    static void back_walk(L &, const Seq &) {}
};
template <class T, class A> struct ListTraits<dstruct::DoublyLinkedList<T, A> > {
    typedef dstruct::DoublyLinkedList<T, A> L;
    enum { bidir = 1 };
    static const char *popb() { return "pop_back"; }
    static void pop_back(L &l) { l.pop_back(); }
    static void back_walk(L &l, const Seq &s) { walk_back<T>("iterate-back", l.begin(), l.end(), s, G().ops & 1); }
};

template <class T, class L>
struct ListDrv : Pool<L, Seq, ListDrv<T, L> > {
    typedef Pool<L, Seq, ListDrv<T, L> > P;
    typedef ListTraits<L> Tr;
    using P::o; using P::m; using P::ch; using P::K;
    size_t maxsize; unsigned groups; Phase ph[4];
    Vec<const void *> ad[4];         // address of every element, in order

    ListDrv(Chooser &c, int k, size_t mx, unsigned g) : P(c, k), maxsize(mx), groups(g) { this->create_all(); }
    L *fresh(void *p) { return new (p) L; }
    Seq fresh_model() { return Seq(); }

    void learn(int i) { ad[i].clear(); L &l = *o[i]; size_t n = 0; for (auto it = l.begin(); it != l.end() && n <= m[i].size(); it++, n++) ad[i].push_back((const void *)it.operator->()); }
    void verify(int i, bool full) {
        InLib in;
        L &l = *o[i]; const L &cl = l; const Seq &s = m[i];
        EXPECT_EQ(C_MODEL, "size", cl.size(), s.size());
        EXPECT_EQ(C_MODEL, "empty", cl.empty(), s.empty());
        note_size(s.size());
        if (!s.empty()) {
            EXPECT_EQ(C_MODEL, "front", Val<T>::key(cl.front()), s[0]);
            EXPECT_EQ(C_MODEL, "back", Val<T>::key(cl.back()), s.back());
        }
        if (!full) return;
        if (IsTracked<T>::value) this->check_live(0, 1);
        walk<T>("iterate", l.begin(), l.end(), s, true);
        walk<T>("iterate-pre", l.begin(), l.end(), s, false);
        walk<T>("iterate-const", cl.begin(), cl.end(), s, G().ops & 1);
        Tr::back_walk(l, s);
        size_t n = 0;
        if (ad[i].size() == s.size())
            for (auto it = cl.begin(); it != cl.end(); ++it, ++n)
                EXPECT(C_STABLE, "element-moved", (const void *)it.operator->() == ad[i][n], "the element at position %zu is at another address than when it was inserted", n);
        note_state(hash_seq(s));
    }
    void added(int i, bool front) {
        L &l = *o[i];
        if (front) ad[i].insert(ad[i].begin(), (const void *)l.begin().operator->());
        else { const void *p = 0; size_t n = 0; for (auto it = l.begin(); it != l.end() && n <= m[i].size(); it++, n++) p = it.operator->(); ad[i].push_back(p); }
    }
    void copied(int i) { learn(i); }
    void do_push_back(int i, int x) {
        T t = Val<T>::make(x); op("push_back", i, x); LIB(o[i]->push_back(t)); m[i].push_back(Val<T>::norm(x)); added(i, false);
    }
    void do_push_front(int i, int x) {
        T t = Val<T>::make(x);
        if (ch.choose(2)) { op("push_front", i, x); LIB(o[i]->push_front(t)); } else { op("push", i, x); LIB(o[i]->push(t)); }
        m[i].insert(m[i].begin(), Val<T>::norm(x)); added(i, true);
    }
    void do_pop_front(int i) {
        if (ch.choose(2)) { op("pop_front", i); LIB(o[i]->pop_front()); } else { op("pop", i); LIB(o[i]->pop()); }
        m[i].erase(m[i].begin()); ad[i].erase(ad[i].begin()); removal();
    }
    void do_pop_back(int i) { op(Tr::popb(), i); LIB(Tr::pop_back(*o[i])); m[i].pop_back(); ad[i].pop_back(); removal(); }
    void clear(int i) { op("clear", i); LIB(o[i]->clear()); m[i].clear(); ad[i].clear(); removal(); }
    void construct(int i) {
        int n = (int)ch.choose((unsigned)maxsize + 1); int x = this->val(); T t = Val<T>::make(x); op("construct_fill", i, n, x);
        this->kill(i); L *p = 0; void *q = this->mem(); LIB(p = new (q) L(n, t)); o[i] = p; m[i].assign(n, Val<T>::norm(x)); learn(i); removal();
    }
    void alias_op(int i) {
        L &l = *o[i]; Seq &s = m[i];
        if (s.empty()) { do_push_back(i, this->val()); return; }
        int k = (int)ch.choose((unsigned)s.size()); int x = s[k];
        auto it = l.begin(); for (int j = 0; j < k; j++) it++;
        switch (ch.choose(3)) {
        case 0: op("push_back_own", i, k); LIB(l.push_back(*it)); s.push_back(x); added(i, false); break;
        case 1: op("push_front_own", i, k); LIB(l.push_front(*it)); s.insert(s.begin(), x); added(i, true); break;
        case 2: { auto jt = l.begin(); int j = (int)ch.choose((unsigned)s.size()); for (int q = 0; q < j; q++) jt++; op("assign_own", i, k, j); LIB(*it = *jt); s[k] = s[j]; break; }
        }
    }
    void step() {
        int i = (int)ch.choose(K);
        unsigned r = this->roll(maxsize);
        if ((groups & OG_COPY) && r < 8) { for (int j = 0; j < K; j++) ad[j].clear(); this->copy_op(i); for (int j = 0; j < K; j++) learn(j); return; }
        if ((groups & OG_MOVE) && r >= 8 && r < 16) { for (int j = 0; j < K; j++) ad[j].clear(); this->move_op(i); for (int j = 0; j < K; j++) learn(j); return; }
        if ((groups & OG_ALIAS) && r >= 16 && r < 30) { alias_op(i); verify(i, ch.choose(2) == 0); return; }
        if (r >= 97) { ad[i].clear(); this->recreate_op(i); return; }
        if (r >= 94) clear(i);
        else if (r >= 91) construct(i);
        else if (r >= 86 && !m[i].empty()) {
            int k = (int)ch.choose((unsigned)m[i].size()); int x = this->val(); T t = Val<T>::make(x); auto it = o[i]->begin(); for (int j = 0; j < k; j++) it++;
            op("set", i, k, x); LIB(*it = t); m[i][k] = Val<T>::norm(x);
        } else if (m[i].empty() || ph[i].want_grow(ch, m[i].size(), maxsize)) { if (ch.choose(2)) do_push_back(i, this->val()); else do_push_front(i, this->val()); }
        else { if (ch.choose(2)) do_pop_back(i); else do_pop_front(i); }
        verify(i, m[i].size() < 24 ? ch.choose(2) == 0 : ch.choose(40) == 0);
        if (m[i].size() < 40 && ch.choose(12) == 0 && groups & OG_BASE) { op("algorithms", i); algo<T>(o[i]->begin(), o[i]->end(), m[i], m[i].empty() || ch.choose(3) == 0 ? 999983 : m[i][ch.choose((unsigned)m[i].size())]); }
    }
    void step_ex() {
        int i = (int)ch.choose(K); int j = K - 1 - i;
        switch (ch.choose(groups & (OG_COPY | OG_MOVE) ? 7 : 5)) {
        case 0: { int x = this->val(); T t = Val<T>::make(x); op("push_back", i, x); LIB(o[i]->push_back(t)); m[i].push_back(Val<T>::norm(x)); break; }
        case 1: { int x = this->val(); T t = Val<T>::make(x); op("push_front", i, x); LIB(o[i]->push_front(t)); m[i].insert(m[i].begin(), Val<T>::norm(x)); break; }
        case 2: if (m[i].empty()) { op("noop"); break; } op("pop_front", i); LIB(o[i]->pop_front()); m[i].erase(m[i].begin()); removal(); break;
        case 3: if (m[i].empty()) { op("noop"); break; } op(Tr::popb(), i); LIB(Tr::pop_back(*o[i])); m[i].pop_back(); removal(); break;
        case 4: op("clear", i); LIB(o[i]->clear()); m[i].clear(); removal(); break;
        case 5: if (groups & OG_COPY) { op("copy_assign", i, j); LIB(*o[i] = *(const L *)o[j]); m[i] = m[j]; removal(); break; } // fall through
        case 6: if (groups & OG_MOVE) { op("move_assign", i, j); LIB(*o[i] = dstruct::move(*o[j])); if (i != j) { m[i] = m[j]; m[j].clear(); } removal(); break; }
                op("copy_construct_over", i, j); { L *n = (L *)this->mem(); LIB(new ((void *)n) L(*(const L *)o[j])); Seq s = m[j]; this->kill(i); o[i] = n; m[i] = s; removal(); } break;
        }
        for (int k = 0; k < K; k++) ad[k].clear();
        if (ch.unseen()) for (int k = 0; k < K; k++) verify(k, true);
    }
    void finish() { for (int i = 0; i < K; i++) verify(i, true); }
};
template <class T, class L> static void rnd(Chooser &ch) {
    unsigned sz = ch.choose(32);
    ListDrv<T, L> d(ch, 1 + ch.choose(3), 1 + ch.choose(sz > 8 ? 8 : sz ? 40 : 160), O().opmask);
    int n = 20 + (int)ch.choose(sz ? 60 : 400);
    while (n--) d.step();
    d.finish();
}
template <class T, class L> static void big(Chooser &ch) {
    ListDrv<T, L> d(ch, 2, 600, O().opmask & ~(unsigned)OG_ALIAS);
    for (int i = 0; i < 1500; i++) d.step();
    d.finish();
}
template <class T, class L, int D> static void exh(Chooser &ch) {
    ListDrv<T, L> d(ch, (O().opmask & (OG_COPY | OG_MOVE)) ? 2 : 1, 100, O().opmask);
    int n = D - ((O().opmask & (OG_COPY | OG_MOVE)) ? 3 : 0) + O().depth_bonus;
    while (n--) d.step_ex();
}
#define BOTH(T, A, n, tag) \
    add("random", "slist<" tag ">", n, rnd<T, dstruct::SinglyLinkedList<T, A> >); \
    add("random", "dlist<" tag ">", n, rnd<T, dstruct::DoublyLinkedList<T, A> >);
int main(int argc, char **argv) {
    typedef VH_ALLOC A;
#ifndef VH_NO_WATCH
    watch_malloc();
#endif
    BOTH(int, A, 3000, "int") BOTH(Tracked, A, 3000, "Tracked") BOTH(Big, A, 500, "Big") BOTH(Fat, A, 300, "Fat") BOTH(Tiny, A, 500, "Tiny") BOTH(char, A, 700, "char") BOTH(bool, A, 500, "bool") BOTH(const char *, A, 500, "ptr") BOTH(Str, A, 700, "String")
#ifndef VH_SMALL_ALIGN
    BOTH(long double, A, 500, "longdouble")
#endif
    add("random", "slist<Tracked>/up", 1000, rnd<Tracked, dstruct::SinglyLinkedList<Tracked, A> >, VA_UP);
    add("random", "dlist<int>/down", 1000, rnd<int, dstruct::DoublyLinkedList<int, A> >, VA_DOWN);
    add("exhaustive", "slist<Tracked>/exhaustive", 0, exh<Tracked, dstruct::SinglyLinkedList<Tracked, A>, 7>);
    add("exhaustive", "dlist<Tracked>/exhaustive", 0, exh<Tracked, dstruct::DoublyLinkedList<Tracked, A>, 7>);
    add("exhaustive", "slist<int>/exhaustive", 0, exh<int, dstruct::SinglyLinkedList<int, A>, 7>);
    add("exhaustive", "dlist<int>/exhaustive", 0, exh<int, dstruct::DoublyLinkedList<int, A>, 7>);
    add("large", "slist<int>/large", 6, big<int, dstruct::SinglyLinkedList<int, A> >);
    add("large", "dlist<Tracked>/large", 6, big<Tracked, dstruct::DoublyLinkedList<Tracked, A> >);
    return vh_main(argc, argv);
}
