// Array<T, N>, its iterators, and the free algorithms and comparators.
#include "pool.hpp"
using namespace vh;

template <class T, int N> struct Init { template <class A> static A *build(void *p, Seq &m, int v) { m.assign(N, Val<T>::norm(v)); T e = Val<T>::make(v); return new (p) A(e); } };

template <class T, int N>
struct ArrDrv : Pool<dstruct::Array<T, N>, Seq, ArrDrv<T, N> > {
    typedef dstruct::Array<T, N> A; typedef Pool<A, Seq, ArrDrv<T, N> > P;
    using P::o; using P::m; using P::ch; using P::K;
    int fillv; Seq fm;
    unsigned groups;
    ArrDrv(Chooser &c, int k, unsigned g) : P(c, k), fillv(1), groups(g) { this->create_all(); }
    A *fresh(void *p) { fillv = this->val(); return Init<T, N>::template build<A>(p, fm, fillv); }
    Seq fresh_model() { return fm; }
    void moved_from(int j) { // contents of a moved-from array are not specified: write all of them again
        for (int k = 0; k < N; k++) { int v = this->val(); T e = Val<T>::make(v); LIB((*o[j])[k] = e); m[j][k] = Val<T>::norm(v); }
    }
    void verify(int i, bool full) {
        InLib in;
        A &x = *o[i]; const A &cx = x; const Seq &s = m[i];
        EXPECT_EQ(C_MODEL, "size", cx.size(), N);
        EXPECT_EQ(C_MODEL, "capacity", cx.capacity(), N);
        EXPECT_EQ(C_MODEL, "empty", cx.empty(), N == 0);
        note_size(N);
        if (IsTracked<T>::value && !this->pending) { size_t k = 0; for (int q = 0; q < P::MAXK; q++) k += o[q] != 0; EXPECT_EQ(C_LIFE, "live-count", TS().live, (long)k * (N ? N : 1)); }
        if (N) { EXPECT_EQ(C_MODEL, "front", Val<T>::key(cx.front()), s[0]); EXPECT_EQ(C_MODEL, "back", Val<T>::key(cx.back()), s[N - 1]); }
        if (!full) return;
        for (int k = 0; k < N; k++) {
            EXPECT_EQ(C_MODEL, "index", Val<T>::key(x[k]), s[k]); EXPECT_EQ(C_MODEL, "index", Val<T>::key(cx[k]), s[k]);
            EXPECT_EQ(C_MODEL, "neg-index", Val<T>::key(x[k - N]), s[k]); EXPECT_EQ(C_MODEL, "neg-index", Val<T>::key(cx[k - N]), s[k]);
            EXPECT(C_MODEL, "index-same", &x[k] == &x[k - N] && &cx[k] == &x[k], "index %d and %d are different elements", k, k - N);
        }
        walk<T>("iterate", x.begin(), x.end(), s, true); walk<T>("iterate", x.begin(), x.end(), s, false);
        walk<T>("iterate-const", cx.begin(), cx.end(), s, true);
        walk_back<T>("iterate-back", x.begin(), x.end(), s, true); walk_back<T>("iterate-back", cx.begin(), cx.end(), s, false);
        EXPECT_EQ(C_MODEL, "distance", dstruct::distance(x.begin(), x.end()), N);
        EXPECT_EQ(C_MODEL, "distance", dstruct::distance(x.end(), x.begin()), -N);
        for (int k = 0; k < N; k++) {
            auto it = x.begin() + k; EXPECT_EQ(C_MODEL, "it+n", Val<T>::key(*it), s[k]); EXPECT_EQ(C_MODEL, "distance", dstruct::distance(x.begin(), it), k);
            auto jt = x.end() - (N - k); EXPECT(C_MODEL, "it-n", jt == it, "begin+%d and end-%d are different positions", k, N - k);
            auto p = it++; EXPECT_EQ(C_MODEL, "it++", Val<T>::key(*p), s[k]); EXPECT_EQ(C_MODEL, "it++", dstruct::distance(x.begin(), it), k + 1);
            auto q = it--; EXPECT_EQ(C_MODEL, "it--", dstruct::distance(x.begin(), q), k + 1); EXPECT_EQ(C_MODEL, "it--", Val<T>::key(*it), s[k]);
        }
        size_t c = 0; for (const auto &v : cx) { EXPECT_EQ(C_MODEL, "range-for", Val<T>::key(v), s[c]); c++; } EXPECT_EQ(C_MODEL, "range-for", c, N);
        algo<T>(x.begin(), x.end(), s, N ? (int)ch.rng.below(this->counter + 2) : 1);
        if (N) FindCheck<T>::check(x.begin(), x.end(), s, s[ch.rng.below(N)]);
        // sub-ranges
        if (N > 1) {
            int a = (int)ch.rng.below(N), b = a + (int)ch.rng.below(N - a + 1); Seq sub(s.begin() + a, s.begin() + b);
            algo<T>(x.begin() + a, x.begin() + b, sub, s[ch.rng.below(N)]);
        }
        note_state(hash_seq(s) + N);
    }
    void step() {
        int i = (int)ch.choose(K); unsigned r = ch.choose(100);
        if ((groups & OG_COPY) && r < 10) return this->copy_op(i);
        if ((groups & OG_MOVE) && r >= 10 && r < 20) return this->move_op(i);
        if (r >= 96 || N == 0) return this->recreate_op(i);
        int k = (int)ch.choose(N ? N : 1);
        if (r < 70) { int v = this->val(); op("set", i, k, v); bool neg = ch.choose(3) == 0; T e = Val<T>::make(v); LIB((*o[i])[neg ? k - N : k] = e); m[i][k] = Val<T>::norm(v); removal(); }
        else if (r < 80) { int v = this->val(); op("set_it", i, k, v); T e = Val<T>::make(v); LIB(*(o[i]->begin() + k) = e); m[i][k] = Val<T>::norm(v); removal(); }
        else { int q = (int)ch.choose(N ? N : 1); op("swap", i, k, q); LIB(dstruct::swap((*o[i])[k], (*o[i])[q])); int t = m[i][k]; m[i][k] = m[i][q]; m[i][q] = t; removal(); }
        verify(i, true);
    }
    void finish() { for (int i = 0; i < K; i++) verify(i, true); }
};
template <class T, int N> static void arr(Chooser &ch) { ArrDrv<T, N> d(ch, 1 + (int)ch.choose(3), O().opmask); int n = 5 + (int)ch.choose(40); while (n--) d.step(); d.finish(); }
// more elements than 16 bits count
template <class T, int N> static void arr_large(Chooser &ch) {
    typedef dstruct::Array<T, N> A; A *a = 0, *b = 0; void *p = malloc(sizeof(A)), *q = malloc(sizeof(A)); Seq m(N, 7);
    auto same = [&](const A &c) { InLib in; EXPECT_EQ(C_MODEL, "size", c.size(), N); EXPECT_EQ(C_MODEL, "capacity", c.capacity(), N); EXPECT(C_MODEL, "empty", !c.empty(), "an array of %d elements is empty", N);
        walk<T>("iterate", c.begin(), c.end(), m, 0); walk_back<T>("iterate-back", c.begin(), c.end(), m, 0); EXPECT_EQ(C_MODEL, "front", Val<T>::key(c.front()), m[0]); EXPECT_EQ(C_MODEL, "back", Val<T>::key(c.back()), m[N - 1]);
        for (int k = 0; k < N; k += 1 + k % 97) { EXPECT_EQ(C_MODEL, "index", Val<T>::key(c[k]), m[k]); EXPECT_EQ(C_MODEL, "negative-index", Val<T>::key(c[k - N]), m[k]); } };
    op("construct", N); { T e = Val<T>::make(7); LIB(a = new (p) A(e)); } same(*a);
    op("write"); { InLib in; if (ch.choose(2)) for (int k = 0; k < N; k++) { m[k] = (int)(k * 2654435761u >> 3); (*a)[ch.choose(2) ? k : k - N] = Val<T>::make(m[k]); } else { int k = 0; for (auto it = a->begin(); it != a->end(); ++it, ++k) { m[k] = N - k; *it = Val<T>::make(m[k]); } } } same(*a);
    if (O().opmask & OG_COPY) { op("copy"); const A &src = *a; LIB(b = new (q) A(src)); same(*b); { InLib in; (*b)[(int)ch.choose(N)] = Val<T>::make(-5); } same(*a); op("assign"); LIB(*b = *(const A *)a); same(*b); same(*a); LIB(b->~A()); }
    if (O().opmask & OG_MOVE) { op("move"); LIB(b = new (q) A(dstruct::move(*a))); same(*b); LIB(*a = dstruct::move(*b)); same(*a); LIB(b->~A()); }
    LIB(a->~A()); free(p); free(q); note_size(N);
}
template <class T, int N> static void arr_ex(Chooser &ch) {
    ArrDrv<T, N> d(ch, 1, OG_BASE); int n = 3;
    while (n--) { int k = (int)ch.choose(N), v = 1 + (int)ch.choose(2), w = (int)ch.choose(3); op("set", k, v, w); removal(); T e = Val<T>::make(v);
        LIB(if (w == 0) (*d.o[0])[k] = e; else if (w == 1) (*d.o[0])[k - N] = e; else *(d.o[0]->begin() + k) = e); d.m[0][k] = Val<T>::norm(v); if (ch.unseen()) d.verify(0, true); }
}

// ---------------------------------------------------------------- free functions
template <class T> static int sgn(T v) { return v < 0 ? -1 : v > 0; }
struct Obj { int k; };
static void scalars(Chooser &ch) {
    static Obj pool[8];
    for (int rep = 0; rep < 30; rep++) {
        long long big[] = { 0, 1, -1, 2147483647ll, -2147483647ll, 5, -5, (long long)ch.rng.next() >> 33, -((long long)ch.rng.next() & 0xffff) };
        int a = (int)big[ch.choose(9)], b = (int)big[ch.choose(9)];
        op("scalars", a, b); removal();
        int g; LIB(g = dstruct::max(a, b)); EXPECT_EQ(C_MODEL, "max", g, a > b ? a : b);
        LIB(g = dstruct::abs(a)); EXPECT_EQ(C_MODEL, "abs", g, a < 0 ? -(long long)a : a);
        long long la = a * 4294967296ll + b, lb = b * 4294967296ll + a, lg;
        if (a != -2147483647 - 1) { LIB(lg = dstruct::abs(la)); EXPECT_EQ(C_MODEL, "abs-ll", lg, la < 0 ? -la : la); }
        LIB(lg = dstruct::max(la, lb)); EXPECT_EQ(C_MODEL, "max-ll", lg, la > lb ? la : lb);
        double da = a / 8.0, db = b / 16.0, dg; LIB(dg = dstruct::max(da, db)); EXPECT(C_MODEL, "max-d", dg == (da > db ? da : db), "max(%g,%g) is %g", da, db, dg);
        LIB(dg = dstruct::abs(da)); EXPECT(C_MODEL, "abs-d", dg == (da < 0 ? -da : da), "abs(%g) is %g", da, dg);
        bool r; LIB(r = dstruct::less<int>()(a, b)); EXPECT_EQ(C_MODEL, "less", r, a < b);
        LIB(r = dstruct::greater<int>()(a, b)); EXPECT_EQ(C_MODEL, "greater", r, a > b);
        LIB(r = dstruct::less<double>()(da, db)); EXPECT_EQ(C_MODEL, "less-d", r, da < db);
        // pointers: the null pointer is before every other pointer
        int pi = (int)ch.choose(9) - 1, pj = (int)ch.choose(9) - 1; Obj *p = pi < 0 ? 0 : pool + pi, *q = pj < 0 ? 0 : pool + pj;
        LIB(r = dstruct::less<Obj *>()(p, q)); EXPECT(C_MODEL, "less-ptr", r == (pi < pj), "less of pointers %d and %d is %d", pi, pj, (int)r);
        LIB(r = dstruct::greater<Obj *>()(p, q)); EXPECT(C_MODEL, "greater-ptr", r == (pi > pj), "greater of pointers %d and %d is %d", pi, pj, (int)r);
        // swap and move of every kind of value
        { int x = a, y = b; LIB(dstruct::swap(x, y)); EXPECT(C_MODEL, "swap", x == b && y == a, "swap(%d,%d)", a, b); LIB(dstruct::swap(x, x)); EXPECT_EQ(C_MODEL, "swap-self", x, b); }
        { Obj *x = p, *y = q; LIB(dstruct::swap(x, y)); EXPECT(C_MODEL, "swap-ptr", x == q && y == p, "swap of pointers"); }
        { Tracked x(a), y(b); LIB(dstruct::swap(x, y)); EXPECT(C_MODEL, "swap-obj", x.k == b && y.k == a, "swap of objects"); EXPECT_EQ(C_LIFE, "live-count", TS().live, 2); }
        { Str x = Val<Str>::make(pi + 2), y = Val<Str>::make(pj + 40); LIB(dstruct::swap(x, y)); EXPECT(C_MODEL, "swap-str", Val<Str>::key(x) == pj + 40 && Val<Str>::key(y) == pi + 2, "swap of strings"); }
        { IntVec x = Val<IntVec>::make(pi + 2), y = Val<IntVec>::make(pj + 40); LIB(dstruct::swap(x, y)); EXPECT(C_MODEL, "swap-vec", Val<IntVec>::key(x) == pj + 40 && Val<IntVec>::key(y) == pi + 2, "swap of vectors"); }
    }
}
// algorithms over raw pointer ranges, callbacks which change the elements
static void ranges(Chooser &ch) {
    int n = (int)ch.choose(12); int *a = (int *)malloc(sizeof(int) * (n + 1)); Seq s;   // exact range: one past the end is not readable
    int *raw = a; if (n) { a = (int *)realloc(a, sizeof(int) * n); raw = a; }
    for (int i = 0; i < n; i++) { raw[i] = (int)ch.choose(6); s.push_back(raw[i]); op("elem", raw[i]); }
    op("for_each", n); op("find", n); removal();
    int b = (int)ch.choose(n + 1), e = b + (int)ch.choose(n - b + 1); Seq sub(s.begin() + b, s.begin() + e);
    { size_t k = 0; EachCheck<int> cb = { &sub, &k }; int *pb = raw + b, *pe = raw + e; LIB(dstruct::algorithm::for_each(pb, pe, cb)); EXPECT_EQ(C_MODEL, "for_each", k, sub.size()); }
    for (int v = 0; v < 7; v++) {
        int *pb = raw + b, *pe = raw + e, *r; LIB(r = dstruct::algorithm::find(pb, pe, v));
        int want = b; while (want < e && s[want] != v) want++;
        EXPECT_EQ(C_MODEL, "find", r - raw, want);
    }
    { auto add1 = [](int &v) { v += 10; }; int *pb = raw + b, *pe = raw + e; LIB(dstruct::algorithm::for_each(pb, pe, add1)); for (int i = 0; i < n; i++) EXPECT_EQ(C_MODEL, "for_each-modify", raw[i], s[i] + (i >= b && i < e ? 10 : 0)); }
    note_state(hash_seq(s)); note_size(n); free(a);
}
int main(int argc, char **argv) {
    watch_malloc();
    add("random", "array<int,0>", 150, arr<int, 0>);
    add("random", "array<int,1>", 400, arr<int, 1>);
    add("random", "array<int,2>", 800, arr<int, 2>);
    add("random", "array<int,5>", 1500, arr<int, 5>);
    add("random", "array<int,33>", 500, arr<int, 33>);
    add("random", "array<int,300>", 60, arr<int, 300>);
    add("random", "array<Tracked,130>", 60, arr<Tracked, 130>);
    add("large", "array<int,70000>/large", 8, arr_large<int, 70000>);
    add("random", "array<Tracked,3>", 1000, arr<Tracked, 3>);
    add("random", "array<String,4>", 800, arr<Str, 4>);
    add("random", "array<Vector,3>", 500, arr<IntVec, 3>);
    add("random", "array<ptr,7>", 500, arr<const char *, 7>);
    add("random", "array<Big,2>", 400, arr<Big, 2>);
    add("random", "array<longdouble,6>", 400, arr<long double, 6>);
    add("exhaustive", "array<int,4>/exhaustive", 0, arr_ex<int, 4>);
    add("scalars", "scalars", 3000, scalars);
    add("ranges", "ranges", 12000, ranges);
    add("ranges", "ranges/long", 1000, ranges);
    return vh_main(argc, argv);
}
