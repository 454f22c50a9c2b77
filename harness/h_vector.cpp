// Vector against a sequence model.
#include "pool.hpp"
using namespace vh;

template <class T, class A>
struct VecDrv : Pool<dstruct::Vector<T, A>, Seq, VecDrv<T, A> > {
    typedef dstruct::Vector<T, A> V;
    typedef Pool<V, Seq, VecDrv<T, A> > P;
    using P::o; using P::m; using P::ch; using P::K;
    size_t maxsize; unsigned groups; Phase ph[4]; bool reserve;

    VecDrv(Chooser &c, int k, size_t mx, unsigned g) : P(c, k), maxsize(mx), groups(g), reserve(false) { this->create_all(); }
    V *fresh(void *p) { return new (p) V; }
    Seq fresh_model() { return Seq(); }

    void verify(int i, bool full) {
        InLib in;
        V &v = *o[i]; const V &cv = v; const Seq &s = m[i];
        EXPECT_EQ(C_MODEL, "size", cv.size(), s.size());
        EXPECT_EQ(C_MODEL, "empty", cv.empty(), s.empty());
        EXPECT(C_MODEL, "capacity", cv.capacity() >= cv.size(), "capacity %llu below size %llu", (unsigned long long)cv.capacity(), (unsigned long long)cv.size());
        note_size(s.size());
        if (!s.empty()) {
            EXPECT_EQ(C_MODEL, "front", Val<T>::key(cv.front()), s[0]);
            EXPECT_EQ(C_MODEL, "back", Val<T>::key(cv.back()), s.back());
        }
        if (!full) {
            if (!s.empty()) {
                int k = (int)(G().ops % s.size());
                EXPECT_EQ(C_MODEL, "index", Val<T>::key(v[k]), s[k]);
                EXPECT_EQ(C_MODEL, "negative-index", Val<T>::key(cv[-1 - k]), s[s.size() - 1 - k]);
            }
            return;
        }
        if (IsTracked<T>::value) this->check_live(0, 0);
        int n = (int)s.size();
        for (int k = 0; k < n; k++) {
            EXPECT_EQ(C_MODEL, "index", Val<T>::key(v[k]), s[k]);
            EXPECT_EQ(C_MODEL, "index", Val<T>::key(cv[k]), s[k]);
            EXPECT_EQ(C_MODEL, "negative-index", Val<T>::key(cv[k - n]), s[k]);
            EXPECT_EQ(C_MODEL, "negative-index", Val<T>::key(v[k - n]), s[k]);
        }
        walk<T>("iterate", v.begin(), v.end(), s, true);
        walk<T>("iterate-const", cv.begin(), cv.end(), s, false);
        walk_back<T>("iterate-back", v.begin(), v.end(), s, G().ops & 1);
        EXPECT_EQ(C_MODEL, "distance", dstruct::distance(v.begin(), v.end()), n);
        if (n) {
            int k = (int)(G().ops % n);
            EXPECT_EQ(C_MODEL, "iterator-plus", Val<T>::key(*(v.begin() + k)), s[k]);
            EXPECT_EQ(C_MODEL, "iterator-minus", Val<T>::key(*(cv.end() - (k + 1))), s[n - 1 - k]);
        }
        note_state(mix(hash_seq(s), cv.capacity() - cv.size()));
    }

    void push(int i, int x) {
        V &v = *o[i];
        T t = Val<T>::make(x);
        if (ch.choose(2)) { op("push_back", i, x); LIB(v.push_back(t)); }
        else { op("push", i, x); LIB(v.push(t)); }
        m[i].push_back(Val<T>::norm(x));
    }
    void pop(int i) {
        V &v = *o[i];
        if (ch.choose(2)) { op("pop_back", i); LIB(v.pop_back()); }
        else { op("pop", i); LIB(v.pop()); }
        m[i].pop_back(); removal();
    }
    void other(int i) {
        V &v = *o[i]; Seq &s = m[i];
        size_t n;
        switch (ch.choose(8)) {
        case 0: case 1:
            if (s.empty()) { op("noop"); break; }
            { int k = (int)ch.choose((unsigned)s.size()); int x = this->val(); T t = Val<T>::make(x);
              if (ch.choose(2)) { op("set", i, k, x); LIB(v[k] = t); } else { op("set_neg", i, k, x); LIB(v[k - (int)s.size()] = t); }
              s[k] = Val<T>::norm(x); }
            break;
        case 2:
            n = ch.choose((unsigned)maxsize + 3); op("resize", i, n);
            LIB(v.resize(n)); if (s.size() > n) { s.resize(n); removal(); }
            EXPECT_EQ(C_MODEL, "resize-capacity", v.capacity(), n); reserve = true;
            break;
        case 3:
            n = s.size() + ch.choose(4); if (n > maxsize) n = maxsize; op("reserve", i, n);
            LIB(v.resize(n)); if (s.size() > n) { s.resize(n); removal(); } reserve = true;
            break;
        case 4: case 5: {
            n = ch.choose((unsigned)maxsize + 1); int x = this->val(); T t = Val<T>::make(x); op("resize_fill", i, n, x);
            LIB(v.resize(n, t)); if (s.size() > n) removal(); s.resize(n, Val<T>::norm(x)); reserve = true; break; }
        case 6: op("clear", i); LIB(v.clear()); s.clear(); removal(); break;
        case 7: {
            n = 1 + ch.choose((unsigned)maxsize); int x = this->val(); T t = Val<T>::make(x); op("construct_fill", i, n, x);
            this->kill(i); V *p = 0; void *q = this->mem(); LIB(p = new (q) V(n, t)); o[i] = p; s.assign(n, Val<T>::norm(x)); removal(); break; }
        }
    }
    void alias_op(int i) {
        V &v = *o[i]; Seq &s = m[i];
        if (s.empty()) { push(i, this->val()); return; }
        int k = (int)ch.choose((unsigned)s.size());
        switch (ch.choose(4)) {
        case 0: op("push_own", i, k); LIB(v.push_back(v[k])); s.push_back(s[k]); break;
        case 1: op("push_back_of_self", i); LIB(v.push(v.back())); s.push_back(s.back()); break;
        case 2: { size_t n = ch.choose((unsigned)maxsize + 1); op("resize_own", i, n, k); int x = s[k]; LIB(v.resize(n, v[k])); s.resize(n, x); break; }
        case 3: { int l = (int)ch.choose((unsigned)s.size()); op("assign_own", i, k, l); LIB(v[k] = v[l]); s[k] = s[l]; break; }
        }
    }
    void step() {
        int i = (int)ch.choose(K);
        unsigned r = this->roll(maxsize);
        if ((groups & OG_COPY) && r < 8) return this->copy_op(i);
        if ((groups & OG_MOVE) && r >= 8 && r < 16) return this->move_op(i);
        if ((groups & OG_ALIAS) && r >= 16 && r < 34) { alias_op(i); verify(i, m[i].size() < 24 ? ch.choose(2) == 0 : ch.choose(40) == 0); return; }
        if (r >= 96) { this->recreate_op(i); return; }
        if (r >= 86) other(i);
        else if (m[i].empty() || ph[i].want_grow(ch, m[i].size(), maxsize)) push(i, this->val());
        else pop(i);
        verify(i, m[i].size() < 24 ? ch.choose(3) == 0 : ch.choose(60) == 0);
    }
    // small branching for complete enumeration
    void step_ex() {
        int i = (int)ch.choose(K);
        V &v = *o[i]; Seq &s = m[i];
        switch (ch.choose(7)) {
        case 0: { int x = this->val(); T t = Val<T>::make(x); op("push_back", i, x); LIB(v.push_back(t)); s.push_back(Val<T>::norm(x)); break; }
        case 1: if (s.empty()) { op("noop"); break; } op("pop_back", i); LIB(v.pop_back()); s.pop_back(); removal(); break;
        case 2: { size_t n = s.size() / 2; op("resize_half", i, n); LIB(v.resize(n)); s.resize(n); removal(); break; }
        case 3: { size_t n = s.size() + 3; op("reserve3", i, n); LIB(v.resize(n)); break; }
        case 4: { size_t n = s.size() + 1; int x = this->val(); T t = Val<T>::make(x); op("fill1", i, n); LIB(v.resize(n, t)); s.push_back(Val<T>::norm(x)); break; }
        case 5: if ((groups & OG_ALIAS) && !s.empty()) { op("push_own", i, 0); LIB(v.push_back(v[0])); s.push_back(s[0]); }
                else if (groups & OG_COPY) { op("copy_assign", i, K - 1 - i); LIB(*o[i] = *(const V *)o[K - 1 - i]); m[i] = m[K - 1 - i]; removal(); }
                else if (groups & OG_MOVE) { int j = K - 1 - i; op("move_assign", i, j); LIB(*o[i] = dstruct::move(*o[j])); if (i != j) { m[i] = m[j]; m[j].clear(); } removal(); }
                else { op("clear", i); LIB(v.clear()); s.clear(); removal(); }
                break;
        case 6: op("clear", i); LIB(v.clear()); s.clear(); removal(); break;
        }
        if (ch.unseen()) for (int k = 0; k < K; k++) verify(k, true);
    }
    void finish() { for (int i = 0; i < K; i++) verify(i, true); }
};

template <class T, class A> static void rnd(Chooser &ch) {
    VecDrv<T, A> d(ch, 1 + ch.choose(3), 1 + ch.choose(ch.choose(4) ? 12 : 80), O().opmask);
    int n = 20 + (int)ch.choose(80);
    while (n--) d.step();
    d.finish();
}
template <class T, class A> static void big(Chooser &ch) {
    VecDrv<T, A> d(ch, 2, 400 + ch.choose(2000), O().opmask);
    for (int i = 0; i < 5000; i++) d.step();
    d.finish();
}
template <class T, class A, int D> static void exh(Chooser &ch) {
    VecDrv<T, A> d(ch, (O().opmask & (OG_COPY | OG_MOVE)) ? 2 : 1, 100, O().opmask);
    int n = D - ((O().opmask & (OG_COPY | OG_MOVE)) ? 2 : 0) + O().depth_bonus;
    while (n--) d.step_ex();
}

int main(int argc, char **argv) {
    typedef VH_ALLOC A;
#ifndef VH_NO_WATCH
    watch_malloc();
#endif
    add("random", "vector<int>", 4000, rnd<int, A>);
    add("random", "vector<Tracked>", 4000, rnd<Tracked, A>);
    add("random", "vector<Tracked>/up", 1500, rnd<Tracked, A>, VA_UP);
    add("random", "vector<int>/down", 1500, rnd<int, A>, VA_DOWN);
    add("random", "vector<char>", 1500, rnd<char, A>);
    add("random", "vector<bool>", 700, rnd<bool, A>);
    add("random", "vector<Big>", 700, rnd<Big, A>);
    add("random", "vector<Fat>", 400, rnd<Fat, A>);
    add("random", "vector<Tiny>", 700, rnd<Tiny, A>);
    add("random", "vector<ptr>", 700, rnd<const char *, A>);
#ifndef VH_SMALL_ALIGN
    add("random", "vector<longdouble>", 700, rnd<long double, A>);
#endif
    add("exhaustive", "vector<Tracked>/exhaustive", 0, exh<Tracked, A, 6>);
    add("exhaustive", "vector<int>/exhaustive", 0, exh<int, A, 6>);
    add("large", "vector<int>/large", 8, big<int, A>);
    add("large", "vector<Tracked>/large", 8, big<Tracked, A>);
    return vh_main(argc, argv);
}
