// Containers as elements of containers, to depth three: the contents of every level follow a model, inner
// objects are changed in place, assigned, copied, moved and swapped across levels and across outer objects.
#include "pool.hpp"
using namespace vh;
typedef VH_ALLOC A;
typedef Vec<int> Flat;                  // canonical contents of one inner object

// ---- inner objects: add, drop and read what they hold
template <class T> struct IVec { typedef dstruct::Vector<T, A> C; static void add(C &c, int x) { c.push_back(Val<T>::make(x)); } static void drop(C &c) { c.pop_back(); }
    static void madd(Flat &m, int x) { m.push_back(Val<T>::norm(x)); } static void mdrop(Flat &m) { m.pop_back(); } static void read(const C &c, Flat &f) { for (auto &v : c) f.push_back(Val<T>::key(v)); EXPECT_EQ(C_MODEL, "inner-size", c.size(), f.size()); } };
struct IStr { typedef Str C; static void add(C &c, int x) { c.push_back((char)('a' + x % 26)); } static void drop(C &c) { c.clear(); } static void madd(Flat &m, int x) { m.push_back('a' + x % 26); } static void mdrop(Flat &m) { m.clear(); }
    static void read(const C &c, Flat &f) { for (const char *p = c.c_str(); *p; p++) f.push_back(*p); EXPECT_EQ(C_MODEL, "inner-size", c.size(), f.size()); } };
template <class T, int N> struct IDeq { typedef dstruct::DoubleEndedQueue<T, N, A> C; static void add(C &c, int x) { if (x % 3) c.push_back(Val<T>::make(x)); else c.push_front(Val<T>::make(x)); } static void drop(C &c) { if (c.size() % 2) c.pop_back(); else c.pop_front(); }
    static void madd(Flat &m, int x) { if (x % 3) m.push_back(Val<T>::norm(x)); else m.insert(m.begin(), Val<T>::norm(x)); } static void mdrop(Flat &m) { m.erase(m.size() % 2 ? m.end() - 1 : m.begin()); } static void read(const C &c, Flat &f) { for (auto it = c.begin(); it != c.end(); ++it) f.push_back(Val<T>::key(*it)); EXPECT_EQ(C_MODEL, "inner-size", c.size(), f.size()); } };
template <class L> struct IList { typedef L C; typedef typename L::ValueType T; static void add(C &c, int x) { if (x % 3) c.push_back(Val<T>::make(x)); else c.push_front(Val<T>::make(x)); } static void drop(C &c) { c.pop_front(); }
    static void madd(Flat &m, int x) { if (x % 3) m.push_back(Val<T>::norm(x)); else m.insert(m.begin(), Val<T>::norm(x)); } static void mdrop(Flat &m) { m.erase(m.begin()); } static void read(const C &c, Flat &f) { for (auto it = c.begin(); it != c.end(); ++it) f.push_back(Val<T>::key(*it)); EXPECT_EQ(C_MODEL, "inner-size", c.size(), f.size()); } };
struct IMin { typedef dstruct::MinStack<int, A> C; static void add(C &c, int x) { c.push(x % 7); } static void drop(C &c) { c.pop(); } static void madd(Flat &m, int x) { m.push_back(x % 7); } static void mdrop(Flat &m) { m.pop_back(); }
    static void read(const C &c, Flat &f) { C d(c); while (!d.empty()) { f.insert(f.begin(), d.top()); int b = d.getXValue(); d.pop(); EXPECT(C_MODEL, "inner-extreme", b <= f[0], "the least value of an inner stack is wrong"); } } };
struct IHeap { typedef dstruct::Heap<int, dstruct::less<int>, A> C; static void add(C &c, int x) { c.push(x % 50); } static void drop(C &c) { c.pop(); } static void madd(Flat &m, int x) { m.push_back(x % 50); std::sort(m.begin(), m.end()); } static void mdrop(Flat &m) { m.erase(m.begin()); }
    static void read(const C &c, Flat &f) { C d(c); EXPECT_EQ(C_MODEL, "inner-size", d.size(), c.size()); while (!d.empty()) { f.push_back(d.top()); d.pop(); } } };
template <class Tr> struct ITree { typedef Tr C; static void add(C &c, int x) { if (c.find(x % 40) == c.end()) c.push(x % 40); } static void drop(C &c) { c.erase(c.begin()); }
    static void madd(Flat &m, int x) { for (size_t i = 0; i < m.size(); i++) if (m[i] == x % 40) return; m.push_back(x % 40); std::sort(m.begin(), m.end()); } static void mdrop(Flat &m) { m.erase(m.begin()); }
    static void read(const C &c, Flat &f) { for (auto it = c.begin(); it != c.end(); ++it) f.push_back(*it); EXPECT_EQ(C_MODEL, "inner-size", c.size(), f.size()); } };
template <class V> struct IMap { typedef dstruct::Map<int, V, dstruct::less<int>, dstruct::AVLTree<dstruct::KeyValue<const int, V>, dstruct::KVCMPKey<dstruct::KeyValue<const int, V>, dstruct::less<int> >, A> > C;
    static void add(C &c, int x) { c[x % 20] = Val<V>::make(x); } static void drop(C &c) { c.pop(c.begin()->key); }
    static void madd(Flat &m, int x) { size_t i = 0; while (i < m.size() && m[i] < x % 20) i += 2; if (i < m.size() && m[i] == x % 20) { m[i + 1] = Val<V>::norm(x); return; } m.insert(m.begin() + i, Val<V>::norm(x)); m.insert(m.begin() + i, x % 20); }
    static void mdrop(Flat &m) { m.erase(m.begin()); m.erase(m.begin()); }
    static void read(const C &c, Flat &f) { for (auto it = c.begin(); it != c.end(); ++it) { f.push_back(it->key); f.push_back(Val<V>::key(it->value)); } EXPECT_EQ(C_MODEL, "inner-size", c.size() * 2, f.size()); } };
// ring of lists, deques or maps of inner objects once more: the last inner object grows until it is full, then a new one is opened
template <class Out, class I> struct INest { typedef typename Out::C C;
    static void add(C &c, int x) { typename I::C *b = Out::last(c); if (!b || x % 4 == 0) { typename I::C e; I::add(e, x); Out::push(c, e); } else I::add(*b, x); }
    static void drop(C &c) { Out::pop(c); }
    // canonical: every inner object as its length and contents
    static void split(const Flat &m, Vec<Flat> &v) { for (size_t i = 0; i < m.size();) { Flat f; int n = m[i++]; while (n--) f.push_back(m[i++]); v.push_back(f); } }
    static void join(const Vec<Flat> &v, Flat &m) { m.clear(); for (size_t i = 0; i < v.size(); i++) { m.push_back((int)v[i].size()); for (size_t k = 0; k < v[i].size(); k++) m.push_back(v[i][k]); } }
    static void madd(Flat &m, int x) { Vec<Flat> v; split(m, v); if (v.empty() || x % 4 == 0) { Flat f; I::madd(f, x); v.push_back(f); } else I::madd(v.back(), x); join(v, m); }
    static void mdrop(Flat &m) { Vec<Flat> v; split(m, v); v.erase(Out::front(v.size()) ? v.begin() : v.end() - 1); join(v, m); }
    static void read(const C &c, Flat &f) { Vec<Flat> v; Out::each(c, [&](const typename I::C &e) { Flat g; I::read(e, g); v.push_back(g); }); EXPECT_EQ(C_MODEL, "inner-size", c.size(), v.size()); join(v, f); } };

// ---- outer containers of E: append, remove at one end, reach the k-th
template <class E> struct OVec { typedef dstruct::Vector<E, A> C; static bool front(size_t) { return false; } static void push(C &c, const E &e) { c.push_back(e); } static void pop(C &c) { c.pop_back(); } static E *at(C &c, size_t k) { return &c[(int)k]; } static E *last(C &c) { return c.empty() ? 0 : at(c, c.size() - 1); }
    template <class F> static void each(const C &c, F f) { for (auto &e : c) f(e); } };
template <class E, int N> struct ODeq { typedef dstruct::DoubleEndedQueue<E, N, A> C; static bool front(size_t n) { return n % 2 == 0; } static void push(C &c, const E &e) { c.push_back(e); } static void pop(C &c) { if (c.size() % 2) c.pop_back(); else c.pop_front(); } static E *at(C &c, size_t k) { auto it = c.begin() + (int)k; return const_cast<E *>(&*it); } static E *last(C &c) { return c.empty() ? 0 : at(c, c.size() - 1); }
    template <class F> static void each(const C &c, F f) { for (auto it = c.begin(); it != c.end(); ++it) f(*it); } };
template <class L> struct OList { typedef L C; typedef typename L::ValueType E; static bool front(size_t) { return true; } static void push(C &c, const E &e) { c.push_back(e); } static void pop(C &c) { c.pop_front(); } static E *at(C &c, size_t k) { auto it = c.begin(); while (k--) it++; return const_cast<E *>(&*it); } static E *last(C &c) { return c.empty() ? 0 : at(c, c.size() - 1); }
    template <class F> static void each(const C &c, F f) { for (auto it = c.begin(); it != c.end(); ++it) f(*it); } };
template <class E> struct OQueue { typedef dstruct::Queue<E, A> C; static bool front(size_t) { return true; } static void push(C &c, const E &e) { c.push(e); } static void pop(C &c) { c.pop(); } static E *at(C &c, size_t k) { auto it = c.begin(); while (k--) ++it; return const_cast<E *>(&*it); } static E *last(C &c) { return c.empty() ? 0 : at(c, c.size() - 1); }
    template <class F> static void each(const C &c, F f) { for (auto it = c.begin(); it != c.end(); ++it) f(*it); } };
template <class E> struct OStack { typedef dstruct::Stack<E, A> C; static bool front(size_t) { return false; } static void push(C &c, const E &e) { c.push(e); } static void pop(C &c) { c.pop(); } static E *at(C &c, size_t k) { auto it = c.begin(); while (k--) ++it; return const_cast<E *>(&*it); } static E *last(C &c) { return c.empty() ? 0 : at(c, c.size() - 1); }
    template <class F> static void each(const C &c, F f) { for (auto it = c.begin(); it != c.end(); ++it) f(*it); } };
// a map from rising keys: the entries are in the order in which they were made
template <class E> struct OMap { typedef dstruct::Map<int, E, dstruct::less<int>, dstruct::AVLTree<dstruct::KeyValue<const int, E>, dstruct::KVCMPKey<dstruct::KeyValue<const int, E>, dstruct::less<int> >, A> > C; static bool front(size_t) { return true; }
    static void push(C &c, const E &e) { int k = 0; for (auto it = c.begin(); it != c.end(); it++) k = it->key + 1; if (k % 2) c[k] = e; else c.push(typename C::KeyValueType(k, e)); }
    static void pop(C &c) { if (c.size() % 2) c.pop(c.begin()->key); else { auto it = c.begin(); c.erase(it); } } static E *at(C &c, size_t k) { auto it = c.begin(); while (k--) it++; return &c[it->key]; } static E *last(C &c) { return c.empty() ? 0 : at(c, c.size() - 1); }
    template <class F> static void each(const C &c, F f) { for (auto it = c.begin(); it != c.end(); ++it) f(it->value); } };

template <class Out, class I> struct Nest {
    typedef typename Out::C C; typedef typename I::C E; typedef Vec<Flat> M;
    Chooser &ch; enum { K = 2 }; C *o[K]; M m[K]; int counter;
    Nest(Chooser &c) : ch(c), counter(1) { for (int i = 0; i < K; i++) { void *p = malloc(sizeof(C)); LIB(o[i] = new (p) C); } }
    ~Nest() { for (int i = 0; i < K; i++) { LIB(o[i]->~C()); memset((void *)o[i], 0xEE, sizeof(C)); free(o[i]); } }
    static uint64_t hash(const Flat &f) { uint64_t h = f.size(); for (size_t i = 0; i < f.size(); i++) h = mix(h, f[i]); return h; }
    void same(const E &e, const Flat &want, const char *what) {
        Flat f; I::read(e, f);
        EXPECT(C_MODEL, what, f.size() == want.size(), "an inner object holds %zu values, expected %zu", f.size(), want.size());
        for (size_t i = 0; i < f.size(); i++) EXPECT(C_MODEL, what, f[i] == want[i], "value %zu of an inner object is %d, expected %d", i, f[i], want[i]);
    }
    void verify(int i) {
        InLib in; const C &c = *o[i]; size_t n = 0; uint64_t h = 1;
        EXPECT_EQ(C_MODEL, "outer-size", c.size(), m[i].size()); EXPECT_EQ(C_MODEL, "outer-empty", c.empty(), m[i].empty());
        Out::each(c, [&](const E &e) { EXPECT(C_MODEL, "outer-walk", n < m[i].size(), "more than %zu inner objects", m[i].size()); same(e, m[i][n], "inner-contents"); h = mix(h, hash(m[i][n])); n++; });
        EXPECT_EQ(C_MODEL, "outer-walk", n, m[i].size()); note_size(n); note_state(h);
    }
    void fill(E &e, Flat &f, int n) { while (n-- > 0) { int x = counter++; LIB(I::add(e, x)); I::madd(f, x); } }
    E *at(int i, size_t k) { E *e = 0; LIB(e = Out::at(*o[i], k)); return e; }
    void erase_model(int i) { m[i].erase(Out::front(m[i].size()) ? m[i].begin() : m[i].end() - 1); }
    void step() {
        int i = (int)ch.choose(K), j = (int)ch.choose(K); C &c = *o[i]; size_t n = m[i].size(), nj = m[j].size();
        size_t a = n ? ch.choose((unsigned)n) : 0, b = nj ? ch.choose((unsigned)nj) : 0;
        static const unsigned char pick[] = { 0,0,0,0,1,1,3,3,4,4,5,5,5,6,6,7,7,7,8,8,9,9,10,10,11,11,12,12,13,14,14,15,16,17 };
        switch (pick[ch.choose(sizeof pick)]) {
        case 0: case 1: { if (n > 12) break; int k = (int)ch.choose(ch.choose(3) ? 5 : 40); op("push_new", i, k); void *p = malloc(sizeof(E)); E *e; Flat f; LIB(e = new (p) E); fill(*e, f, k); LIB(Out::push(c, *e)); m[i].push_back(f); same(*e, f, "pushed-source"); LIB(e->~E()); free(p); break; }
        case 3: { if (n > 12 || !nj) break; op("push_copy_of", i, j, (long)b); E *e = at(j, b); Flat f = m[j][b]; LIB(Out::push(c, *e)); m[i].push_back(f); break; }
        case 4: { if (!n) break; op("pop", i); removal(); LIB(Out::pop(c)); erase_model(i); break; }
        case 5: case 6: { if (!n) break; int k = 1 + (int)ch.choose(6); op("inner_add", i, (long)a, k); E *e = at(i, a); fill(*e, m[i][a], k); break; }
        case 7: { if (!n || m[i][a].empty()) break; op("inner_drop", i, (long)a); removal(); E *e = at(i, a); LIB(I::drop(*e)); I::mdrop(m[i][a]); break; }
        case 8: { if (!n || !nj) break; op("inner_assign", i * K + j, (long)a, (long)b); removal(); E *x = at(i, a), *y = at(j, b); LIB(*x = *(const E *)y); m[i][a] = Flat(m[j][b]); break; }
        case 9: { if (!n || !nj) break; op("inner_move", i * K + j, (long)a, (long)b); removal(); E *x = at(i, a), *y = at(j, b); LIB(*x = dstruct::move(*y)); if (x != y) { Flat f = m[j][b]; m[j][b].clear(); m[i][a] = f; } break; }
        case 10: { if (!n || !nj) break; op("inner_swap", i * K + j, (long)a, (long)b); removal(); E *x = at(i, a), *y = at(j, b); LIB(dstruct::swap(*x, *y)); Flat f = m[i][a], g = m[j][b]; m[i][a] = g; m[j][b] = f; break; }
        case 11: { if (!n) break; op("inner_out", i, (long)a); removal(); E *x = at(i, a); void *p = malloc(sizeof(E)); E *e; LIB(e = new (p) E(dstruct::move(*x))); Flat f = m[i][a]; m[i][a].clear(); same(*e, f, "moved-out"); fill(*e, f, 2); same(*e, f, "moved-out"); verify(i); if (ch.choose(2)) { LIB(*x = *e); m[i][a] = f; } LIB(e->~E()); free(p); break; }
        case 12: { op("outer_assign", i, j); removal(); LIB(c = *(const C *)o[j]); if (i != j) m[i] = m[j]; break; }
        case 13: { op("outer_move", i, j); removal(); LIB(c = dstruct::move(*o[j])); if (i != j) { m[i] = m[j]; m[j].clear(); } break; }
        case 14: { op("outer_copy", i); void *p = malloc(sizeof(C)); C *t; LIB(t = new (p) C(*(const C *)&c)); if (n) { E *e; LIB(e = Out::at(*t, a)); same(*e, m[i][a], "copied"); Flat f = m[i][a]; fill(*e, f, 3); same(*e, f, "copy-changed"); } verify(i); LIB(t->~C()); free(p); removal(); break; }
        case 15: { if (ch.choose(3)) break; op("outer_clear", i); removal(); LIB(c = C()); m[i].clear(); break; }
        case 16: { op("outer_round_trip", i); removal(); void *p = malloc(sizeof(C)); C *t; LIB(t = new (p) C(dstruct::move(c))); EXPECT(C_MODEL, "moved-from", c.empty() && c.size() == 0, "a moved-from outer object is not empty"); LIB(c = dstruct::move(*t)); LIB(t->~C()); free(p); break; }
        default: { if (!n) break; op("inner_reset", i, (long)a); removal(); E *x = at(i, a); LIB(*x = E()); m[i][a].clear(); break; }
        }
        verify(i); if (i != j) verify(j);
    }
};
template <class Out, class I> static void run(Chooser &ch) { Nest<Out, I> d(ch); int n = 20 + (int)ch.choose(60); while (n--) d.step(); d.verify(0); d.verify(1); }

// ---- containers as keys: trees, heaps and maps order inner objects by their contents
template <class I> struct Lex { typedef typename I::C E; static bool before(const Flat &x, const Flat &y) { return x < y; } bool operator()(const E &a, const E &b) const { OutLib o; Flat x, y; I::read(a, x); I::read(b, y); return x < y; } };
template <class I> struct Rev { typedef typename I::C E; static bool before(const Flat &x, const Flat &y) { return y < x; } bool operator()(const E &a, const E &b) const { OutLib o; Flat x, y; I::read(a, x); I::read(b, y); return y < x; } };
template <class I> static void mk(typename I::C &e, Flat &f, Chooser &ch) { int n = (int)ch.choose(4); while (n-- > 0) { int x = 1 + (int)ch.choose(6); LIB(I::add(e, x)); I::madd(f, x); } }
template <class I, class Tr> struct KTree { typedef Tr C; enum { MULTI = 0 }; static void push(C &c, const typename I::C &e) { c.push(e); } static void pop(C &c, const typename I::C &e, int w) { if (w) c.pop(e); else { auto it = c.find(e); c.erase(it); } } static bool has(const C &c, const typename I::C &e) { return c.find(e) != c.end(); }
    template <class F> static void each(const C &c, F f) { for (auto it = c.begin(); it != c.end(); ++it) f(*it); } };
template <class I, class Mp> struct KMap { typedef Mp C; enum { MULTI = 0 }; static void push(C &c, const typename I::C &e) { c[e] = e; } static void pop(C &c, const typename I::C &e, int w) { if (w) c.pop(e); else { auto it = c.find(e); c.erase(it); } } static bool has(const C &c, const typename I::C &e) { return c.find(e) != c.end(); }
    template <class F> static void each(const C &c, F f) { for (auto it = c.begin(); it != c.end(); ++it) { f(it->key); Flat a, b; I::read(it->key, a); I::read(it->value, b); EXPECT(C_MODEL, "key-value", a == b, "an entry has another value than its key"); } } };
template <class I, class H> struct KHeap { typedef H C; enum { MULTI = 1 }; static void push(C &c, const typename I::C &e) { c.push(e); } static void pop(C &c, const typename I::C &, int) { c.pop(); } static bool has(const C &, const typename I::C &) { return true; }
    template <class F> static void each(const C &c, F f) { C d(c); while (!d.empty()) { f(d.top()); d.pop(); } } };
template <class K, class I, class Ord> static void keyed(Chooser &ch) {
    typedef typename K::C C; typedef typename I::C E; typedef Vec<Flat> M; C *o[2]; M m[2]; for (int i = 0; i < 2; i++) { void *p = malloc(sizeof(C)); LIB(o[i] = new (p) C); }
    int n = 20 + (int)ch.choose(60); Phase ph;
    while (n--) {
        int i = (int)ch.choose(2), j = 1 - i; unsigned r = ch.choose(20);
        if (r == 0) { op("outer_assign", i, j); removal(); LIB(*o[i] = *(const C *)o[j]); m[i] = m[j]; }
        else if (r == 1) { op("outer_move", i, j); removal(); LIB(*o[i] = dstruct::move(*o[j])); m[i] = m[j]; m[j].clear(); }
        else if (r == 2) { op("outer_round_trip", i); removal(); LIB({ C t(dstruct::move(*o[i])); C u(t); *o[i] = dstruct::move(u); }); }
        else if (m[i].empty() || ph.want_grow(ch, m[i].size(), 24)) {
            void *p = malloc(sizeof(E)); E *e; Flat f; LIB(e = new (p) E); mk<I>(*e, f, ch); size_t at = std::lower_bound(m[i].begin(), m[i].end(), f, Ord::before) - m[i].begin(); bool has = at < m[i].size() && m[i][at] == f;
            if (!K::MULTI) { bool h = false; LIB(h = K::has(*o[i], *e)); EXPECT_EQ(C_MODEL, "find", h, has); }
            if (K::MULTI || !has) { op("push", i, (long)f.size(), (long)at); LIB(K::push(*o[i], *e)); m[i].insert(m[i].begin() + at, f); Flat g; I::read(*e, g); EXPECT(C_MODEL, "pushed-source", g == f, "push changed its argument"); int x = 7; LIB(I::add(*e, x)); } // what was pushed is a copy
            LIB(e->~E()); free(p);
        } else {
            size_t at = K::MULTI ? 0 : ch.choose((unsigned)m[i].size()); op("pop", i, (long)at); removal(); int w = (int)ch.choose(2); void *p = malloc(sizeof(E)); E *e = 0; size_t k = 0;
            LIB({ InLib in; K::each(*o[i], [&](const E &x) { if (k++ == at) e = new (p) E(x); }); K::pop(*o[i], *e, w); e->~E(); }); free(p); m[i].erase(m[i].begin() + at);
        }
        for (int q = 0; q < 2; q++) { InLib in; size_t k = 0; K::each(*o[q], [&](const E &e) { Flat f; I::read(e, f); EXPECT(C_MODEL, "keys", k < m[q].size() && f == m[q][k], "key %zu of %zu is wrong", k, m[q].size()); k++; }); EXPECT_EQ(C_MODEL, "keys", k, m[q].size()); EXPECT_EQ(C_MODEL, "outer-size", o[q]->size(), m[q].size()); note_size(k); uint64_t h = k; for (size_t z = 0; z < k; z++) h = mix(h, Nest<OVec<IVec<int>::C>, IVec<int> >::hash(m[q][z])); note_state(h); }
    }
    for (int i = 0; i < 2; i++) { LIB(o[i]->~C()); memset((void *)o[i], 0xEE, sizeof(C)); free(o[i]); }
}
#define EACH_KEYED(I, nm, n, Ord) \
    add("nest", "keyed-avl<" nm ">", n, keyed<KTree<I, dstruct::AVLTree<I::C, Ord<I>, A> >, I, Ord<I> >); add("nest", "keyed-bst<" nm ">", n, keyed<KTree<I, dstruct::tree::BinarySearchTree<I::C, Ord<I>, A> >, I, Ord<I> >); add("nest", "keyed-heap<" nm ">", n, keyed<KHeap<I, dstruct::Heap<I::C, Ord<I>, A> >, I, Ord<I> >); \
    add("nest", "keyed-map<" nm ">", n, keyed<KMap<I, dstruct::Map<I::C, I::C, Ord<I>, dstruct::AVLTree<dstruct::KeyValue<const I::C, I::C>, dstruct::KVCMPKey<dstruct::KeyValue<const I::C, I::C>, Ord<I> >, A> > >, I, Ord<I> >)

typedef IVec<int> I1; typedef IVec<Tracked> I2; typedef IDeq<int, 2> I3; typedef IDeq<Tracked, 8> I4; typedef IList<dstruct::DoublyLinkedList<int, A> > I5; typedef IList<dstruct::SinglyLinkedList<Tracked, A> > I6; typedef ITree<dstruct::AVLTree<int, dstruct::less<int>, A> > I7; typedef ITree<dstruct::tree::BinarySearchTree<int, dstruct::less<int>, A> > I8; typedef IMap<int> I9; typedef IMap<Str> I10;
typedef INest<OVec<IStr::C>, IStr> D1; typedef INest<OList<dstruct::DoublyLinkedList<I1::C, A> >, I1> D2; typedef INest<ODeq<I7::C, 2>, I7> D3; typedef INest<OMap<I6::C>, I6> D4; typedef INest<OQueue<I9::C>, I9> D5;
#define EACH_OUTER(I, nm, n, N) \
    add("nest", "nest-vector<" nm ">", n, run<OVec<I::C>, I>); add("nest", "nest-deque" #N "<" nm ">", n, run<ODeq<I::C, N>, I>); add("nest", "nest-dlist<" nm ">", n, run<OList<dstruct::DoublyLinkedList<I::C, A> >, I>); \
    add("nest", "nest-slist<" nm ">/up", n, run<OList<dstruct::SinglyLinkedList<I::C, A> >, I>, VA_UP); add("nest", "nest-queue<" nm ">", n, run<OQueue<I::C>, I>); add("nest", "nest-stack<" nm ">", n, run<OStack<I::C>, I>); add("nest", "nest-map<int," nm ">", n, run<OMap<I::C>, I>)
int main(int argc, char **argv) {
#ifndef VH_NO_WATCH
    watch_malloc();
#endif
#if PART(0)
    EACH_OUTER(I1, "vector<int>", 120, 2); EACH_OUTER(I2, "vector<Tracked>", 120, 8);
#endif
#if PART(1)
    EACH_OUTER(IStr, "string", 120, 1); EACH_OUTER(I3, "deque<int,2>", 120, 32);
#endif
#if PART(2)
    EACH_OUTER(I4, "deque<Tracked,8>", 120, 2); EACH_OUTER(I5, "dlist<int>", 120, 3);
#endif
#if PART(3)
    EACH_OUTER(I6, "slist<Tracked>", 120, 16); EACH_OUTER(IMin, "minstack<int>", 120, 4);
#endif
#if PART(4)
    EACH_OUTER(IHeap, "heap<int>", 120, 2); EACH_OUTER(I7, "avl<int>", 120, 1);
#endif
#if PART(5)
    EACH_OUTER(I8, "bst<int>", 120, 8); EACH_OUTER(I9, "map<int,int>", 120, 5);
#endif
#if PART(6)
    EACH_OUTER(I10, "map<int,string>", 120, 3); EACH_OUTER(D1, "vector<string>", 100, 2);
#endif
#if PART(7)
    EACH_OUTER(D2, "dlist<vector<int>>", 100, 32); EACH_OUTER(D3, "deque<avl<int>>", 100, 4);
#endif
#if PART(8)
    EACH_OUTER(D4, "map<int,slist<Tracked>>", 100, 16); EACH_OUTER(D5, "queue<map<int,int>>", 100, 1);
#endif
#if PART(9)
    EACH_KEYED(I1, "vector<int>", 150, Lex); EACH_KEYED(IStr, "string,reverse", 150, Rev);
#endif
#if PART(10)
    EACH_KEYED(I3, "deque<int,2>", 120, Lex); EACH_KEYED(I6, "slist<Tracked>,reverse", 120, Rev);
#endif
    return vh_main(argc, argv);
}
