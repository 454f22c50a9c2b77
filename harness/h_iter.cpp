// One contract for the iterators of every container: positions, copies, steps, comparisons, arithmetic, sub-ranges.
#include "pool.hpp"
using namespace vh;
typedef VH_ALLOC A;
enum { FWD = 0, BIDIR = 1, RAND = 2, DIFF = 4, WRITE = 8 };

template <class T> struct Visit { const Seq *m; size_t i, j; size_t *n; void operator()(const T &v) { EXPECT(C_MODEL, "for_each-range", i + *n < j, "for_each over [%zu, %zu) goes on", i, j); EXPECT_EQ(C_MODEL, "for_each-range", Val<T>::key(v), (*m)[i + *n]); ++*n; } };
template <int CAT, bool OK> struct Back { template <class T, class It> static void run(Chooser &, const Vec<It> &, const Seq &) {} };
template <int CAT> struct Back<CAT, true> { template <class T, class It> static void run(Chooser &ch, const Vec<It> &P, const Seq &m) {
    size_t n = m.size(), i = ch.choose((unsigned)n + 1); It a(P[i]);
    for (int q = 0; q < 40; q++) {          // a walk back and forth, in both notations
        bool fw = ch.choose(2) && i < n; if (!fw && i == 0) { if (n == 0) break; fw = true; }
        if (ch.choose(2)) { It old = fw ? a++ : a--; EXPECT(C_MODEL, "post-step", old == P[i], "the value of a post-step is not the position before it"); }
        else { It &r = fw ? ++a : --a; EXPECT(C_MODEL, "pre-step", &r == &a, "a pre-step does not return the iterator"); }
        i = fw ? i + 1 : i - 1;
        EXPECT(C_MODEL, "walk", a == P[i] && !(a != P[i]), "a walk back and forth ends at another position than %zu", i);
        if (i < n) EXPECT_EQ(C_MODEL, "walk", Val<T>::key(*a), m[i]);
    }
    op("walk", (long)i);
} };
template <int CAT, bool OK> struct Arith { template <class T, class It> static void run(Chooser &, const Vec<It> &, const Seq &) {} };
template <int CAT> struct Arith<CAT, true> { template <class T, class It> static void run(Chooser &ch, const Vec<It> &P, const Seq &m) {
    size_t n = m.size();
    for (int q = 0; q < 12; q++) {
        int i = (int)ch.choose((unsigned)n + 1), j = (int)ch.choose((unsigned)n + 1); op("arith", i, j); const It &x = P[i];
        EXPECT(C_MODEL, "plus", x + (j - i) == P[j], "position %d + %d is not position %d", i, j - i, j); EXPECT(C_MODEL, "minus", x - (i - j) == P[j], "position %d - %d is not position %d", i, i - j, j);
        EXPECT(C_MODEL, "plus-zero", x + 0 == x && x - 0 == x, "position %d + 0 is another position", i); EXPECT(C_MODEL, "undo", x + (j - i) - (j - i) == x, "+ and - do not undo each other");
        if (j < (int)n) { EXPECT_EQ(C_MODEL, "plus-value", Val<T>::key(*(x + (j - i))), m[j]); EXPECT_EQ(C_MODEL, "plus-value", Val<T>::key(*(x - (i - j)).operator->()), m[j]); }
    }
} };
template <bool OK> struct Diff { template <class It> static void run(Chooser &, const Vec<It> &) {} };
template <> struct Diff<true> { template <class It> static void run(Chooser &ch, const Vec<It> &P) {
    for (int q = 0; q < 8; q++) { int i = (int)ch.choose((unsigned)P.size()), j = (int)ch.choose((unsigned)P.size()); EXPECT_EQ(C_MODEL, "difference", (long long)(P[j] - P[i]), (long long)(j - i)); EXPECT_EQ(C_MODEL, "distance", (long long)dstruct::distance(P[i], P[j]), (long long)(j - i)); }
} };
template <class T, bool HAS_EQ> struct FindR { template <class It> static void run(const Vec<It> &, const Seq &, size_t, size_t, int) {} };
template <class T> struct FindR<T, true> { template <class It> static void run(const Vec<It> &P, const Seq &m, size_t i, size_t j, int probe) {
    size_t w = i; int k = Val<T>::norm(probe); while (w < j && m[w] != k) w++;
    T v = Val<T>::make(probe); It r = dstruct::algorithm::find(P[i], P[j], v); EXPECT(C_MODEL, "find-range", r == P[w], "find over [%zu, %zu) does not return position %zu", i, j, w);
} };
template <class T> struct HasEq { enum { v = 1 }; }; template <> struct HasEq<IntVec> { enum { v = 0 }; };

// every law on one range, given what the container holds in iteration order
template <class T, int CAT, class It> static void laws(Chooser &ch, const It &b, const It &e, const Seq &m) {
    InLib in; size_t n = m.size(); Vec<It> P; { It it = b; for (size_t k = 0; k <= n; k++) { P.push_back(it); if (k < n) { EXPECT_EQ(C_MODEL, "value", Val<T>::key(*it), m[k]); EXPECT(C_MODEL, "not-end", it != e && !(it == e), "position %zu of %zu is the end", k, n); ++it; } } EXPECT(C_MODEL, "end", it == e && !(it != e), "after %zu steps the end is not reached", n); }
    for (int q = 0; q < 30; q++) { size_t i = ch.choose((unsigned)n + 1), j = ch.choose(4) ? ch.choose((unsigned)n + 1) : i; EXPECT(C_MODEL, "equal", (P[i] == P[j]) == (i == j) && (P[i] != P[j]) == (i != j), "comparison of the positions %zu and %zu", i, j); EXPECT(C_MODEL, "equal", (P[j] == P[i]) == (i == j), "comparison is not symmetric"); }
    for (int q = 0; q < 8; q++) {
        size_t i = ch.choose((unsigned)n + 1), j = ch.choose((unsigned)n + 1); op("iterators", (long)i, (long)j);
        It a(P[i]); EXPECT(C_MODEL, "copy", a == P[i], "a copy is at another position");
        It &r = (a = P[j]); EXPECT(C_MODEL, "assign", &r == &a && a == P[j], "assignment"); const It &ca = a; a = ca; EXPECT(C_MODEL, "assign", a == P[j], "assignment of an iterator to itself");
        if (j < n) { EXPECT(C_MODEL, "arrow", (const void *)&*a == (const void *)a.operator->(), "* and -> differ"); EXPECT_EQ(C_MODEL, "arrow", Val<T>::key(*a.operator->()), m[j]); }
        It s(P[i]); It t(dstruct::move(s)); EXPECT(C_MODEL, "move", t == P[i], "a moved iterator is at another position"); s = P[j]; EXPECT(C_MODEL, "move", s == P[j], "assignment to a moved-from iterator"); a = dstruct::move(t); EXPECT(C_MODEL, "move", a == P[i], "a moved iterator is at another position"); if (i < n) EXPECT_EQ(C_MODEL, "move", Val<T>::key(*a), m[i]);
        It &sa = a; a = dstruct::move(sa); EXPECT(C_MODEL, "move", a == P[i], "an iterator moved onto itself is at another position"); if (i < n) EXPECT_EQ(C_MODEL, "move", Val<T>::key(*a), m[i]);
        dstruct::swap(a, s); EXPECT(C_MODEL, "swap", a == P[j] && s == P[i], "swapped iterators"); removal();
        // two iterators over the same elements do not disturb each other
        It x(P[i]), y(P[i]); size_t xi = i, yi = i; for (int k = 0; k < 6; k++) { if (ch.choose(2)) { if (xi < n) { It old = x++; EXPECT(C_MODEL, "post-step", old == P[xi], "the value of a post-step is not the position before it"); xi++; } } else if (yi < n) { ++y; yi++; } EXPECT(C_MODEL, "independent", x == P[xi] && y == P[yi], "two iterators disturb each other"); if (xi < n) EXPECT_EQ(C_MODEL, "independent", Val<T>::key(*x), m[xi]); if (yi < n) EXPECT_EQ(C_MODEL, "independent", Val<T>::key(*y), m[yi]); }
        size_t lo = i < j ? i : j, hi = i < j ? j : i, cnt = 0; Visit<T> v = { &m, lo, hi, &cnt }; dstruct::algorithm::for_each(P[lo], P[hi], v); EXPECT_EQ(C_MODEL, "for_each-range", cnt, hi - lo);
        FindR<T, HasEq<T>::v != 0>::run(P, m, lo, hi, n && ch.choose(3) ? m[ch.choose((unsigned)n)] : 999983);
    }
    Back<CAT, (CAT & (BIDIR | RAND)) != 0>::template run<T>(ch, P, m);
    Arith<CAT, (CAT & RAND) != 0>::template run<T>(ch, P, m);
    Diff<(CAT & DIFF) != 0>::run(ch, P);
    note_size(n); note_state(mix(hash_seq(m), CAT));
}
// elements changed through an iterator are changed for everybody
template <class T, class C> static void write(Chooser &ch, C &c, Seq &m) {
    if (m.empty()) return; size_t k = ch.choose((unsigned)m.size()); int x = 100000 + (int)ch.choose(1000); op("write", (long)k, x); removal(); InLib in;
    auto it = c.begin(); for (size_t q = 0; q < k; q++) it++; auto before = it; T t = Val<T>::make(x); if (ch.choose(2)) *it = t; else *it.operator->() = t; m[k] = Val<T>::norm(x);
    EXPECT(C_MODEL, "write", it == before, "writing moved the iterator"); size_t n = 0; const C &cc = c; for (auto r = cc.begin(); r != cc.end() && n <= m.size(); r++, n++) if (n < m.size()) EXPECT_EQ(C_MODEL, "write", Val<T>::key(*r), m[n]); EXPECT_EQ(C_MODEL, "write", n, m.size());
    n = 0; for (auto &v : c) { if (n < m.size()) EXPECT_EQ(C_MODEL, "range-for", Val<T>::key(v), m[n]); n++; } EXPECT_EQ(C_MODEL, "range-for", n, m.size());
}
// ---- containers: P pushes x at end e, D drops at end e; both keep the sequence in iteration order
template <class T> struct CVec { typedef T E; typedef dstruct::Vector<T, A> C; enum { CAT = RAND | DIFF | BIDIR }; static void push(C &c, Seq &m, int x, int) { c.push_back(Val<T>::make(x)); m.push_back(Val<T>::norm(x)); } static void drop(C &c, Seq &m, int) { c.pop_back(); m.pop_back(); } };
struct CStr { typedef char E; typedef Str C; enum { CAT = RAND | DIFF | BIDIR }; static void push(C &c, Seq &m, int x, int) { c.push_back(Val<char>::make(x)); m.push_back(Val<char>::norm(x)); } static void drop(C &c, Seq &m, int) { c.clear(); m.clear(); } };
template <class T, int N> struct CDeq { typedef T E; typedef dstruct::DoubleEndedQueue<T, N, A> C; enum { CAT = RAND | BIDIR }; static void push(C &c, Seq &m, int x, int e) { if (e) { c.push_front(Val<T>::make(x)); m.insert(m.begin(), Val<T>::norm(x)); } else { c.push_back(Val<T>::make(x)); m.push_back(Val<T>::norm(x)); } } static void drop(C &c, Seq &m, int e) { if (e) { c.pop_front(); m.erase(m.begin()); } else { c.pop_back(); m.pop_back(); } } };
template <class L, int K> struct CLst { typedef typename L::ValueType E; typedef L C; enum { CAT = K }; static void push(C &c, Seq &m, int x, int e) { if (e) { c.push_front(Val<E>::make(x)); m.insert(m.begin(), Val<E>::norm(x)); } else { c.push_back(Val<E>::make(x)); m.push_back(Val<E>::norm(x)); } } static void drop(C &c, Seq &m, int) { c.pop_front(); m.erase(m.begin()); } };
template <class T, class Q> struct CQue { typedef T E; typedef Q C; enum { CAT = RAND | BIDIR }; static void push(C &c, Seq &m, int x, int) { c.push(Val<T>::make(x)); m.push_back(Val<T>::norm(x)); } static void drop(C &c, Seq &m, int) { c.pop(); m.erase(m.begin()); } };
template <class T, class Q> struct CStk { typedef T E; typedef Q C; enum { CAT = RAND | BIDIR | DIFF }; static void push(C &c, Seq &m, int x, int) { c.push(Val<T>::make(x)); m.push_back(Val<T>::norm(x)); } static void drop(C &c, Seq &m, int) { c.pop(); m.pop_back(); } };
template <class D> static void seq(Chooser &ch) {
    typedef typename D::C C; typedef typename D::E T; C *c = (C *)malloc(sizeof(C)); LIB(new ((void *)c) C); Seq m; Phase ph; size_t mx = 1 + ch.choose(ch.choose(3) ? 12 : 80); int x = 1;
    for (int r = 0; r < 6; r++) {
        for (int k = (int)ch.choose((unsigned)mx * 2 + 2); k > 0; k--) { int e = (int)ch.choose(2); if (m.empty() || ph.want_grow(ch, m.size(), mx)) { op("push", e, x); LIB(D::push(*c, m, x++, e)); } else { op("drop", e); removal(); LIB(D::drop(*c, m, e)); } }
        const C &cc = *c; laws<T, D::CAT>(ch, cc.begin(), cc.end(), m); laws<T, D::CAT>(ch, c->begin(), c->end(), m);
    }
    LIB(c->~C()); free(c);
}
template <class D> static void wr(Chooser &ch) {
    typedef typename D::C C; typedef typename D::E T; C *c = (C *)malloc(sizeof(C)); LIB(new ((void *)c) C); Seq m; int x = 1, n = 1 + (int)ch.choose(30);
    while (n--) { int e = (int)ch.choose(2); op("push", e, x); LIB(D::push(*c, m, x++, e)); }
    for (int r = 0; r < 4; r++) { write<T>(ch, *c, m); laws<T, D::CAT>(ch, c->begin(), c->end(), m); }
    LIB(c->~C()); free(c);
}
template <int N> static void arr(Chooser &ch) {
    typedef dstruct::Array<int, N> C; C c; Seq m; for (int i = 0; i < N; i++) { int x = (int)ch.choose(1000); c[i] = x; m.push_back(x); } op("array", N, m[0]); op("fill"); op("fill");
    const C &cc = c; laws<int, RAND | DIFF | BIDIR>(ch, cc.begin(), cc.end(), m); for (int r = 0; r < 3; r++) { write<int>(ch, c, m); laws<int, RAND | DIFF | BIDIR>(ch, c.begin(), c.end(), m); }
    // plain pointers are iterators as well
    int raw[N]; for (int i = 0; i < N; i++) raw[i] = m[i]; dstruct::PrimitiveIterator<int> b(raw), e(raw + N); laws<int, RAND | DIFF | BIDIR>(ch, b, e, m);
}
// more positions than fit in 16 bits
template <class D> static void far(Chooser &ch) {
    typedef typename D::C C; typedef typename D::E T; C *c = (C *)malloc(sizeof(C)); LIB(new ((void *)c) C); Seq m; int n = 66000 + (int)ch.choose(5000); op("push", n);
    { InLib in; for (int i = 0; i < n; i++) { int x = (int)((unsigned)i * 2654435761u >> 20); T v = Val<T>::make(x); c->push_back(v); m.push_back(Val<T>::norm(x)); } }
    const C &cc = *c; laws<T, D::CAT>(ch, cc.begin(), cc.end(), m); laws<T, D::CAT>(ch, c->begin(), c->end(), m);
    LIB(c->~C()); free(c);
}
template <int N> static void far_arr(Chooser &ch) {
    typedef dstruct::Array<int, N> C; C *c = new C; Seq m; { InLib in; for (int i = 0; i < N; i++) { (*c)[i] = (int)((unsigned)i * 2654435761u >> 20); m.push_back((*c)[i]); } } op("array", N);
    laws<int, RAND | DIFF | BIDIR>(ch, ((const C *)c)->begin(), ((const C *)c)->end(), m); dstruct::PrimitiveIterator<int> b(m.data()), e(m.data() + N); laws<int, RAND | DIFF | BIDIR>(ch, b, e, m); delete c;
}
template <class T> struct Keys { Seq *s; void operator()(const T &v) { s->push_back(Val<T>::key(v)); } };
template <class Tr, class T, bool ORDERS> struct TreeOrders { static void run(Chooser &ch, Tr &t) {
    typedef typename Tr::TraversalType TT; static const TT tt[] = { Tr::TraversalType::PreOrder, Tr::TraversalType::InOrder, Tr::TraversalType::PostOrder };
    Seq all[3]; for (int k = 0; k < 3; k++) { Keys<T> cb = { &all[k] }; LIB(t.traversal(cb, tt[k])); }
    // an assigned or swapped iterator goes on in the order of the one it was assigned
    for (int q = 0; q < 6 && all[0].size(); q++) {
        int a = (int)ch.choose(3), b = (int)ch.choose(3); size_t n = all[0].size(), i = ch.choose((unsigned)n), j = ch.choose((unsigned)n); op("orders", a * 3 + b, (long)i, (long)j); InLib in;
        auto x = t.begin(tt[a]), y = t.begin(tt[b]); for (size_t k = 0; k < i; k++) ++x; for (size_t k = 0; k < j; k++) y++; unsigned how = ch.choose(4);
        if (how == 0) x = y; else if (how == 1) { auto z = y; x = dstruct::move(z); } else if (how == 2) { const auto &z = y; auto w(z); x = w; } else { dstruct::swap(x, y); for (size_t k = i; k < n; k++, ++y) EXPECT_EQ(C_MODEL, "order-kept", Val<T>::key(*y), all[a][k]); EXPECT(C_MODEL, "order-kept", y == t.end(tt[a]), "a swapped iterator does not reach the end"); }
        for (size_t k = j; k < n; k++, ++x) { EXPECT(C_MODEL, "order-kept", x != t.end(tt[b]), "an assigned iterator ends early"); EXPECT_EQ(C_MODEL, "order-kept", Val<T>::key(*x), all[b][k]); } EXPECT(C_MODEL, "order-kept", x == t.end(tt[b]), "an assigned iterator does not reach the end");
    }
    for (int k = 0; k < 3; k++) { Seq s; Keys<T> cb = { &s }; LIB(t.traversal(cb, tt[k])); laws<T, FWD>(ch, t.begin(tt[k]), t.end(tt[k]), s); }
} };
template <class Tr, class T> struct TreeOrders<Tr, T, false> { static void run(Chooser &, Tr &) {} };
template <class Tr, class T, bool ORDERS> static void tree(Chooser &ch) {
    Tr *t = (Tr *)malloc(sizeof(Tr)); LIB(new ((void *)t) Tr); Seq m; Phase ph; size_t mx = 1 + ch.choose(ch.choose(3) ? 14 : 60);
    for (int r = 0; r < 5; r++) {
        for (int k = (int)ch.choose((unsigned)mx * 2 + 2); k > 0; k--) {
            int x = (int)ch.choose((unsigned)mx * 3); size_t at = 0; while (at < m.size() && m[at] < x) at++; bool has = at < m.size() && m[at] == x; T v = Val<T>::make(x);
            if (m.empty() || ph.want_grow(ch, m.size(), mx)) { if (has) continue; op("push", x); LIB(t->push(v)); m.insert(m.begin() + at, x); }
            else if (has) { op("pop", x); removal(); LIB(t->pop(v)); m.erase(m.begin() + at); }
            else if (at < m.size() && ch.choose(2)) { // erase in the middle of a walk: the returned iterator goes on with the next one
                op("erase", m[at]); removal(); T w = Val<T>::make(m[at]); InLib in; auto it = t->find(w); auto nx = t->erase(it); m.erase(m.begin() + at);
                for (size_t q = at; q < m.size(); q++, nx++) { EXPECT(C_MODEL, "erase-goes-on", nx != t->end(), "the walk ends early after erase"); EXPECT_EQ(C_MODEL, "erase-goes-on", Val<T>::key(*nx), m[q]); } EXPECT(C_MODEL, "erase-goes-on", nx == t->end(), "the walk after erase does not end"); }
        }
        const Tr &ct = *t; laws<T, FWD>(ch, ct.begin(), ct.end(), m); laws<T, FWD>(ch, t->begin(), t->end(), m); TreeOrders<Tr, T, ORDERS>::run(ch, *t);
        // an iterator found is the iterator walked to
        if (!m.empty()) { InLib in; size_t k = ch.choose((unsigned)m.size()); T v = Val<T>::make(m[k]); auto it = t->find(v); auto w = t->begin(); for (size_t q = 0; q < k; q++) w++; EXPECT(C_MODEL, "found", it == w && !(it != w), "find of element %zu gives another position than the walk to it", k); for (size_t q = k; q < m.size(); q++, ++it) EXPECT_EQ(C_MODEL, "found", Val<T>::key(*it), m[q]); EXPECT(C_MODEL, "found", it == t->end(), "a walk from a found element does not end"); T no = Val<T>::make(-5); EXPECT(C_MODEL, "found", t->find(no) == t->end(), "an absent value is found"); }
    }
    LIB(t->~Tr()); free(t);
}
static void mapit(Chooser &ch) {
    typedef dstruct::Map<int, int, dstruct::less<int>, dstruct::AVLTree<dstruct::KeyValue<const int, int>, dstruct::KVCMPKey<dstruct::KeyValue<const int, int>, dstruct::less<int> >, A> > M;
    M *c = (M *)malloc(sizeof(M)); LIB(new ((void *)c) M); Seq k, v; int mx = 1 + (int)ch.choose(40);
    for (int r = 0; r < 30; r++) {
        int x = (int)ch.choose(mx); size_t at = 0; while (at < k.size() && k[at] < x) at++; bool has = at < k.size() && k[at] == x;
        if (ch.choose(3)) { int y = (int)ch.choose(1000); op("set", x, y); LIB((*c)[x] = y); if (has) v[at] = y; else { k.insert(k.begin() + at, x); v.insert(v.begin() + at, y); } }
        else if (has) { op("erase", x); removal(); InLib in; auto it = c->find(x); auto nx = c->erase(it); k.erase(k.begin() + at); v.erase(v.begin() + at); for (size_t q = at; q < k.size(); q++, nx++) EXPECT(C_MODEL, "erase-goes-on", nx != c->end() && nx->key == k[q] && nx->value == v[q], "the walk after erase is wrong at entry %zu", q); EXPECT(C_MODEL, "erase-goes-on", nx == c->end(), "the walk after erase does not end"); }
        InLib in; const M &cc = *c; size_t n = 0; for (auto it = cc.begin(); it != cc.end(); n++) { EXPECT(C_MODEL, "map-walk", n < k.size() && it->key == k[n] && (*it).value == v[n], "entry %zu", n); auto a = it; auto old = it++; EXPECT(C_MODEL, "post-step", old == a && old != it, "post-step"); } EXPECT_EQ(C_MODEL, "map-walk", n, k.size());
        if (n) { size_t q = ch.choose((unsigned)n); auto it = c->find(k[q]), w = c->begin(); for (size_t z = 0; z < q; z++) ++w; EXPECT(C_MODEL, "found", it == w, "find gives another position than the walk"); EXPECT(C_MODEL, "found", (const void *)&it->value == (const void *)&(*c)[k[q]], "find and [] give different objects"); }
        note_size(n); note_state(hash_seq(k));
    }
    LIB(c->~M()); free(c);
}
template <class H> static void heapit(Chooser &ch) {
    H *h = (H *)malloc(sizeof(H)); LIB(new ((void *)h) H); Seq m; Phase ph; size_t mx = 1 + ch.choose(30);
    for (int r = 0; r < 40; r++) {
        if (m.empty() || ph.want_grow(ch, m.size(), mx)) { int x = (int)ch.choose(50); op("push", x); LIB(h->push(x)); m.push_back(x); } else { op("pop"); removal(); int t = 0; LIB(t = h->top(); h->pop()); size_t at = 0; while (at < m.size() && m[at] != t) at++; EXPECT(C_MODEL, "heap", at < m.size(), "top is not held"); m.erase(m.begin() + at); }
        Seq s; { InLib in; for (auto it = h->begin(); it != h->end() && s.size() <= m.size(); it++) s.push_back(*it); EXPECT_EQ(C_MODEL, "heap-walk", s.size(), m.size()); Seq x(s), y(m); std::sort(x.begin(), x.end()); std::sort(y.begin(), y.end()); for (size_t i = 0; i < x.size(); i++) EXPECT_EQ(C_MODEL, "heap-walk", x[i], y[i]); if (s.size()) EXPECT_EQ(C_MODEL, "heap-walk", s[0], h->top()); }
        if (r % 8 == 0) { const H &c = *h; laws<int, RAND | DIFF | BIDIR>(ch, c.begin(), c.end(), s); }
    }
    LIB(h->~H()); free(h);
}
int main(int argc, char **argv) {
#ifndef VH_NO_WATCH
    watch_malloc();
#endif
    typedef Tracked T;
#if PART(0)
    add("iter", "iter-vector<int>", 600, seq<CVec<int> >); add("iter", "iter-vector<Tracked>", 400, seq<CVec<T> >); add("iter", "iter-string", 500, seq<CStr>); add("iter", "iter-stack<int>", 300, seq<CStk<int, dstruct::Stack<int, A> > >); add("iter", "iter-minstack<int>", 300, seq<CStk<int, dstruct::MinStack<int, A> > >);
    add("iter", "iter-vector<int>/write", 300, wr<CVec<int> >); add("iter", "iter-vector<Tracked>/write", 200, wr<CVec<T> >); add("iter", "iter-string/write", 200, wr<CStr>); add("iter", "iter-array<1>", 100, arr<1>); add("iter", "iter-array<2>", 100, arr<2>); add("iter", "iter-array<17>", 200, arr<17>);
    add("iter", "iter-vector<int>/far", 3, far<CVec<int> >); add("iter", "iter-vector<Tracked>/far", 1, far<CVec<T> >); add("iter", "iter-string/far", 2, far<CStr>); add("iter", "iter-array/far", 2, far_arr<70000>);
    add("iter", "iter-heap<int>", 300, heapit<dstruct::Heap<int, dstruct::less<int>, A> >); add("iter", "iter-heap<int,greater>", 200, heapit<dstruct::Heap<int, dstruct::greater<int>, A> >);
#endif
#if PART(1)
    add("iter", "iter-deque<int,1>", 400, seq<CDeq<int, 1> >); add("iter", "iter-deque<int,2>/up", 500, seq<CDeq<int, 2> >, VA_UP); add("iter", "iter-deque<int,2>/down", 500, seq<CDeq<int, 2> >, VA_DOWN); add("iter", "iter-deque<Tracked,3>", 300, seq<CDeq<T, 3> >); add("iter", "iter-deque<int,32>", 300, seq<CDeq<int, 32> >);
    add("iter", "iter-deque<int,32>/far", 1, far<CDeq<int, 32> >); add("iter", "iter-deque<int,100>/far", 1, far<CDeq<int, 100> >);
    add("iter", "iter-queue<int>", 300, seq<CQue<int, dstruct::Queue<int, A> > >);
    add("iter", "iter-dlist<int>", 400, seq<CLst<dstruct::DoublyLinkedList<int, A>, BIDIR> >); add("iter", "iter-dlist<Tracked>", 300, seq<CLst<dstruct::DoublyLinkedList<T, A>, BIDIR> >); add("iter", "iter-slist<int>", 400, seq<CLst<dstruct::SinglyLinkedList<int, A>, FWD> >); add("iter", "iter-slist<String>", 200, seq<CLst<dstruct::SinglyLinkedList<Str, A>, FWD> >);
    add("iter", "iter-dlist<int>/write", 300, wr<CLst<dstruct::DoublyLinkedList<int, A>, BIDIR> >); add("iter", "iter-slist<Tracked>/write", 300, wr<CLst<dstruct::SinglyLinkedList<T, A>, FWD> >);
#endif
#if PART(2)
    add("iter", "iter-bst<int>", 500, tree<dstruct::tree::BinarySearchTree<int, dstruct::less<int>, A>, int, true>); add("iter", "iter-bst<Tracked>", 300, tree<dstruct::tree::BinarySearchTree<T, dstruct::less<T>, A>, T, true>);
    add("iter", "iter-avl<int>", 500, tree<dstruct::AVLTree<int, dstruct::less<int>, A>, int, false>); add("iter", "iter-avl<Tracked>", 300, tree<dstruct::AVLTree<T, dstruct::less<T>, A>, T, false>);
    add("iter", "iter-map<int,int>", 500, mapit);
#endif
    return vh_main(argc, argv);
}
