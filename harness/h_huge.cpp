// Every container at sizes past 2^16: counters, capacities and links which are right for small objects only.
// The models here cost O(log n) or less per operation; everything is compared in full near powers of two.
#include "pool.hpp"
#include <set>
#include <map>
#include <queue>
using namespace vh;
typedef VH_ALLOC A;

// a window into a long array: pushes and pops at both ends without moving the rest
struct Win {
    Vec<int> buf; size_t lo, hi;
    Win() : buf(1u << 20), lo(1u << 19), hi(1u << 19) {}
    size_t size() const { return hi - lo; }
    int operator[](size_t i) const { return buf[lo + i]; }
    void recentre() { if (lo > 1000 && hi + 1000 < buf.size()) return; Vec<int> c(buf.begin() + lo, buf.begin() + hi); lo = (buf.size() - c.size()) / 2; hi = lo + c.size(); std::copy(c.begin(), c.end(), buf.begin() + lo); }
    void push_back(int x) { recentre(); buf[hi++] = x; }
    void push_front(int x) { recentre(); buf[--lo] = x; }
    void pop_back() { hi--; }
    void pop_front() { lo++; }
    int back() const { return buf[hi - 1]; }
    int front() const { return buf[lo]; }
    void clear() { hi = lo; }
    Seq seq() const { return Seq(buf.begin() + lo, buf.begin() + hi); }
};

// near a power of two from 256 on
static bool edge(size_t n) { if (n < 255) return n == 0; size_t p = 256; while (p + 1 < n) p *= 2; return n + 1 >= p && n <= p + 1; }

// what each kind of container offers; chosen by name, not by matching template parameters
template <class C, class T> struct VectorEnds {
    enum { back = 1, front = 0, popb = 1, popf = 0, two = 1 };
    static void push(C &c, bool, int x) { T t = Val<T>::make(x); LIB(c.push_back(t)); }
    static void pop(C &c, bool) { LIB(c.pop_back()); }
    static void more(const C &c, const Win &w) { int n = (int)w.size(), k = (int)((G().ops * 2654435761u) % (unsigned)n); EXPECT_EQ(C_MODEL, "index", Val<T>::key(c[k]), w[k]); EXPECT_EQ(C_MODEL, "negative-index", Val<T>::key(c[k - n]), w[k]); C &v = const_cast<C &>(c); EXPECT(C_MODEL, "index", &v[k] == &c[k] && &v[k - n] == &c[k], "index %d or %d of %d elements names another element for writing than for reading", k, k - n, n); }
};
template <class C, class T> struct StringEnds {
    enum { back = 1, front = 0, popb = 0, popf = 0, two = 1 };
    static void push(C &c, bool, int x) { LIB(c.push_back((char)x)); }
    static void pop(C &, bool) {}
    static void more(const C &c, const Win &w) { int n = (int)w.size(), k = (int)((G().ops * 2654435761u) % (unsigned)n); EXPECT_EQ(C_MODEL, "index", c[k], w[k]); C &v = const_cast<C &>(c); EXPECT(C_MODEL, "index", &v[k] == &c[k], "index %d of %d characters names another one for writing than for reading", k, n); EXPECT_EQ(C_MODEL, "terminator", c.c_str()[n], 0); }
};
template <class C, class T> struct SListEnds {
    enum { back = 1, front = 1, popb = 0, popf = 1, two = 0 };
    static void push(C &c, bool b, int x) { T t = Val<T>::make(x); if (b) LIB(c.push_back(t)); else LIB(c.push_front(t)); }
    static void pop(C &c, bool) { LIB(c.pop_front()); }
    static void more(const C &, const Win &) {}
};
template <class C, class T> struct DListEnds {
    enum { back = 1, front = 1, popb = 1, popf = 1, two = 1 };
    static void push(C &c, bool b, int x) { T t = Val<T>::make(x); if (b) LIB(c.push_back(t)); else LIB(c.push_front(t)); }
    static void pop(C &c, bool b) { if (b) LIB(c.pop_back()); else LIB(c.pop_front()); }
    static void more(const C &, const Win &) {}
};
template <class C, class T> struct DequeEnds {
    enum { back = 1, front = 1, popb = 1, popf = 1, two = 1 };
    static void push(C &c, bool b, int x) { T t = Val<T>::make(x); if (b) LIB(c.push_back(t)); else LIB(c.push_front(t)); }
    static void pop(C &c, bool b) { if (b) LIB(c.pop_back()); else LIB(c.pop_front()); }
    static void more(const C &c, const Win &w) { int n = (int)w.size(); if (n > 100 && G().ops % 512) return; int k = (int)((G().ops * 2654435761u) % (unsigned)n); EXPECT_EQ(C_MODEL, "index", Val<T>::key(c[k]), w[k]); EXPECT_EQ(C_MODEL, "negative-index", Val<T>::key(c[k - n]), w[k]); EXPECT_EQ(C_MODEL, "iterator-plus", Val<T>::key(*(c.begin() + k)), w[k]); EXPECT_EQ(C_MODEL, "iterator-minus", Val<T>::key(*(c.end() - (n - k))), w[k]); }
};
template <class C, class T> struct DequeQueueEnds {
    enum { back = 1, front = 0, popb = 0, popf = 1, two = 0 };
    static void push(C &c, bool, int x) { T t = Val<T>::make(x); LIB(c.push(t)); }
    static void pop(C &c, bool) { LIB(c.pop()); }
    static void more(const C &c, const Win &w) { int n = (int)w.size(); if (n > 100 && G().ops % 512) return; int k = (int)((G().ops * 2654435761u) % (unsigned)n); C &q = const_cast<C &>(c); EXPECT_EQ(C_MODEL, "index", Val<T>::key(q[k]), w[k]); EXPECT_EQ(C_MODEL, "index", Val<T>::key(q[n - 1]), w[n - 1]); EXPECT_EQ(C_MODEL, "negative-index", Val<T>::key(q[k - n]), w[k]); }
};
template <class C, class T> struct QueueEnds {
    enum { back = 1, front = 0, popb = 0, popf = 1, two = 0 };
    static void push(C &c, bool, int x) { T t = Val<T>::make(x); LIB(c.push(t)); }
    static void pop(C &c, bool) { LIB(c.pop()); }
    static void more(const C &, const Win &) {}
};

// as many element objects as the contents call for
template <class T> static void alive(size_t n, size_t per, size_t extra) { if (IsTracked<T>::value) { long live = TS().live; EXPECT(C_LIFE, "live-count", live >= (long)n && live <= (long)(n * (1 + per) + extra), "%ld element objects alive while the container holds %zu elements", live, n); } }

template <class C, class T, class E> struct Huge {
    Chooser &ch; C *c; Win w; int counter; bool alone;
    Huge(Chooser &h) : ch(h), c(0), counter(1), alone(true) { void *p = malloc(sizeof(C)); LIB(c = new (p) C); }
    ~Huge() { LIB(c->~C()); free((void *)c); }
    void light() {
        const C &q = *c; EXPECT_EQ(C_MODEL, "size", q.size(), w.size()); EXPECT_EQ(C_MODEL, "empty", q.empty(), w.size() == 0);
        if (alone) alive<T>(w.size(), 0, 2);
        if (w.size()) { EXPECT_EQ(C_MODEL, "front", Val<T>::key(q.front()), w.front()); EXPECT_EQ(C_MODEL, "back", Val<T>::key(q.back()), w.back()); E::more(q, w); }
    }
    template <class X> static typename std::enable_if<X::two>::type backwards(const X *, const C &q, const Seq &s) { walk_back<T>("iterate-back", q.begin(), q.end(), s, G().ops & 1); }
    template <class X> static typename std::enable_if<!X::two>::type backwards(const X *, const C &, const Seq &) {}
    void full(const C &q) { InLib in; Seq s = w.seq(); note_size(s.size()); EXPECT_EQ(C_MODEL, "size", q.size(), s.size()); walk<T>("iterate", q.begin(), q.end(), s, G().ops & 1); backwards((E *)0, q, s); }
    void after() { light(); if (edge(w.size())) full(*c); }
    void push(bool b) { b = b || !E::front; int x = Val<T>::norm(counter++); if (sizeof(T) == 1) x = 'a' + counter % 26; op(b ? "push_back" : "push_front", x); E::push(*c, b, x); if (b) w.push_back(x); else w.push_front(x); after(); }
    void pop(bool b) { if (!E::popb) b = false; if (!E::popf) b = true; op(b ? "pop_back" : "pop_front"); E::pop(*c, b); if (b) w.pop_back(); else w.pop_front(); removal(); after(); }
    bool side() { return ch.choose(4) < bias; }
    unsigned bias;
    void draw_bias() { static const unsigned b[] = { 0, 2, 4 }; bias = b[ch.choose(3)]; }
    void copies() {
        alone = false; copies_(); alone = true;
    }
    void copies_() {
        if (O().opmask & OG_COPY) {
            op("copy"); C *d = 0; void *p = malloc(sizeof(C)); const C &src = *c; LIB(d = new (p) C(src)); full(*d);
            push(true); push(true); E::push(*d, true, Val<T>::norm(1)); full(*c);
            if (ch.choose(2)) { C *t = d; d = c; c = t; op("assign"); LIB(*c = *(const C *)d); }
            LIB(d->~C()); free((void *)d); full(*c);
        }
        if (O().opmask & OG_MOVE) {
            op("move"); C *d = 0; void *p = malloc(sizeof(C)); LIB(d = new (p) C(dstruct::move(*c)));
            EXPECT_EQ(C_MODEL, "moved-from", c->size(), 0); full(*d);
            E::push(*c, true, Val<T>::norm(2)); EXPECT_EQ(C_MODEL, "moved-from", c->size(), 1);
            if (ch.choose(2)) { LIB(*c = dstruct::move(*d)); C *t = d; d = c; c = t; }
            C *t = d; d = c; c = t; if (c->size() != w.size()) { t = d; d = c; c = t; }
            LIB(d->~C()); free((void *)d); full(*c);
        }
    }
    void run(size_t top) {
        draw_bias(); while (w.size() < top) push(side());
        copies();
        draw_bias();
        if (E::popb || E::popf) {
            bool can = E::popf && E::back;
            if (can) { bool dir = !E::front || !E::popb || ch.choose(2); for (int k = 0; k < 3000 || (k < 70000 && w.size() < top - 64); k++) { push(dir); pop(!dir); } }
            draw_bias(); while (w.size() > 65520) pop(side());
            while (w.size() < 65560) push(side());
            draw_bias(); while (w.size() > 65500) pop(side());
            unsigned how = ch.choose(3);
            if (how == 0) { draw_bias(); while (w.size() > 3) pop(side()); }
            else { size_t to = 20000 + ch.choose(20000); draw_bias(); while (w.size() > to) pop(side()); while (w.size() < to + 40000) push(true); if (how == 1) { while (w.size()) pop(side()); } }
        }
        full(*c);
        for (int k = 0; k < 40; k++) push(true);
        full(*c);
    }
};
template <template <class, class> class E, class C, class T, int TOP> static void seq(Chooser &ch) { Huge<C, T, E<C, T> > h(ch); h.run(TOP + ch.choose(4000)); }
// constructors which take a count
template <class C, class T> static void count_(Chooser &ch) {
    static const size_t at[] = { 254, 255, 256, 257, 32767, 32768, 65534, 65535, 65536, 65537, 66000, 98304, 131071, 131072, 131073 };
    for (int r = 0; r < 6; r++) {
        size_t n = ch.choose(4) ? at[ch.choose(15)] : 1 + ch.choose(140000); int x = Val<T>::norm(1 + (int)ch.choose(100)); T t = Val<T>::make(x); void *p = malloc(sizeof(C)); C *c;
        op("construct", n, x); LIB(c = new (p) C(n, t)); const C &q = *c; { InLib in; EXPECT_EQ(C_MODEL, "size", q.size(), n); Seq s(n, x); walk<T>("iterate", q.begin(), q.end(), s, r & 1); EXPECT_EQ(C_MODEL, "back", Val<T>::key(q.back()), x); }
        op("push_back", x + 1); T u = Val<T>::make(Val<T>::norm(x + 1)); LIB(c->push_back(u)); EXPECT_EQ(C_MODEL, "size", q.size(), n + 1); EXPECT_EQ(C_MODEL, "back", Val<T>::key(q.back()), Val<T>::key(u)); EXPECT_EQ(C_MODEL, "front", Val<T>::key(q.front()), x);
        LIB(c->~C()); free(p); removal(); op("destroyed");
    }
}
static int tall(Chooser &ch, int more) { return (ch.choose(3) ? 66000 : 131080) + (int)ch.choose((unsigned)more); }

static void vec_resize(Chooser &ch) {     // sizes announced instead of grown to
    dstruct::Vector<int, A> v; Vec<int> s;
    for (int r = 0; r < 12; r++) {
        size_t n = ch.choose(3) ? 65530 + ch.choose(12) : ch.choose(200000); op("resize", n); LIB(v.resize(n)); if (s.size() > n) { s.resize(n); removal(); }
        EXPECT_EQ(C_MODEL, "resize-capacity", v.capacity(), n); EXPECT_EQ(C_MODEL, "size", v.size(), s.size());
        if (ch.choose(2)) { size_t m = 65530 + ch.choose(12); op("resize_fill", m, r); LIB(v.resize(m, r)); s.resize(m, r); EXPECT_EQ(C_MODEL, "size", v.size(), m); }
        for (int k = 0; k < 20; k++) { op("push_back", k); LIB(v.push_back(k)); s.push_back(k); EXPECT_EQ(C_MODEL, "size", v.size(), s.size()); }
        InLib in; Seq t(s.begin(), s.end()); const dstruct::Vector<int, A> &cv = v; walk<int>("iterate", cv.begin(), cv.end(), t, r & 1); walk_back<int>("iterate-back", cv.begin(), cv.end(), t, r & 1);
        for (size_t k = 0; k < t.size(); k++) EXPECT_EQ(C_MODEL, "index", cv[(int)k], t[k]);
    }
}
static void str_append(Chooser &ch) {
    typedef dstruct::BasicString<char, A> S; S s; Vec<char> t;
    auto same = [&](const S &x) { EXPECT_EQ(C_MODEL, "size", x.size(), t.size()); EXPECT(C_MODEL, "content", strlen(x.c_str()) == t.size() && !memcmp(x.c_str(), t.data(), t.size()), "a string of %zu characters differs", t.size()); };
    for (int r = 0; r < 30; r++) {
        unsigned what = ch.choose(5); size_t n = ch.choose(3) ? ch.choose(9000) : (ch.choose(3) ? 65530 : 131066) + ch.choose(12);
        if (t.size() + n > 400000) what = 3;
        Vec<char> x(n + 1, 0); for (size_t k = 0; k < n; k++) x[k] = (char)('a' + (k * 7 + r) % 26);
        if (what < 2) { op("append", n); LIB(s += x.data()); t.insert(t.end(), x.begin(), x.end() - 1); }
        else if (what == 2) { op("append_string", n); LIB(S y(x.data()); s += y); t.insert(t.end(), x.begin(), x.end() - 1); }
        else if (what == 3) { op("assign", n); LIB(s = x.data()); t.assign(x.begin(), x.end() - 1); removal(); }
        else { op("concat", n); LIB(S y(x.data()); S z = s + y; Vec<char> u(t); t.insert(t.end(), x.begin(), x.end() - 1); same(z); t = u);
               if (t.size()) { Vec<char> u(t); u.push_back(0); u[t.size() - 1] ^= 1; EXPECT(C_MODEL, "compare", !(s == u.data()) && s != u.data(), "strings which differ in the last of %zu characters compare equal", t.size()); } }
        same(s); if (O().opmask & OG_COPY) { LIB(S y(s); same(y); y.push_back('z')); same(s); }
    }
}
struct NoX { bool operator()(int, int) const { return false; } template <class T, class C> static void look(const C &, int) {} };
template <class C, class L, unsigned pat, class T = int> static void stack_(Chooser &ch) {     // Stack and XValueStack (L: the extreme's order)
    C *c = 0; void *p = malloc(sizeof(C)); LIB(c = new (p) C); Vec<int> s, ext; L before;
    auto check = [&]() { EXPECT_EQ(C_MODEL, "empty", c->empty(), s.empty()); alive<T>(s.size(), 1, 3); if (!s.empty()) { EXPECT_EQ(C_MODEL, "top", Val<T>::key(c->top()), s.back()); L::template look<T>(*c, ext.back()); } };
    auto push = [&](int k) { int x = pat == 0 ? k : pat == 1 ? -k : pat == 2 ? (int)ch.choose(1000000) : (int)ch.choose(8) - k / 5000; op("push", x); { T v = Val<T>::make(x); LIB(c->push(v)); } s.push_back(x); ext.push_back(ext.empty() || before(x, ext.back()) ? x : ext.back()); check(); };
    auto pop = [&]() { op("pop"); LIB(c->pop()); s.pop_back(); ext.pop_back(); removal(); check(); };
    auto clear = [&]() { op("clear"); LIB(c->clear()); s.clear(); ext.clear(); removal(); check(); };
    int top = tall(ch, 3000);
    for (int k = 0; k < top; k++) push(k);
    if (O().opmask & OG_COPY) { op("copy"); C *d = 0; void *q = malloc(sizeof(C)); const C &src = *c; LIB(d = new (q) C(src)); alive<T>(2 * s.size(), 1, 6); op("pop_other"); LIB(c->pop()); LIB(c->~C()); free((void *)c); c = d; check(); }
    if (O().opmask & OG_MOVE) { op("move"); C *d = 0; void *q = malloc(sizeof(C)); LIB(d = new (q) C(dstruct::move(*c))); EXPECT(C_MODEL, "moved-from", c->empty(), "a moved-from stack is not empty"); LIB(c->~C()); free((void *)c); c = d; check(); }
    while (s.size() > 65500) pop();
    for (int k = 0; k < 60; k++) push(k);
    if (ch.choose(3) == 0) { clear(); for (int k = 0; k < 70000; k++) push(k); }
    while (s.size() > 0) pop();
    for (int k = 0; k < 30; k++) push(k);
    for (int round = 0; round < 4; round++) { int n = (int)ch.choose(round == 3 ? 3000 : 600); for (int k = 0; k < n; k++) push(k); clear(); for (int k = 0; k < 5; k++) push(k); }
    LIB(c->~C()); free((void *)c);
}
struct MinX { bool operator()(int a, int b) const { return a < b; } template <class T, class C> static void look(const C &c, int x) { EXPECT_EQ(C_MODEL, "extreme", Val<T>::key(c.getXValue()), x); } };
struct MaxX { bool operator()(int a, int b) const { return a > b; } template <class T, class C> static void look(const C &c, int x) { EXPECT_EQ(C_MODEL, "extreme", Val<T>::key(c.getXValue()), x); } };

template <unsigned pat> static void heap_(Chooser &ch) {
    typedef dstruct::Heap<int, dstruct::less<int>, A> H; H h; std::priority_queue<int, Vec<int>, std::greater<int> > q;
    auto check = [&]() { EXPECT_EQ(C_MODEL, "size", h.size(), q.size()); if (!q.empty()) EXPECT_EQ(C_MODEL, "top-priority", h.top(), q.top()); };
    auto push = [&](int k) { int x = pat == 0 ? k : pat == 1 ? -k : pat == 2 ? (int)ch.choose(1000000) : (int)ch.choose(50); op("push", x); LIB(h.push(x)); q.push(x); check(); };
    auto pop = [&]() { op("pop"); LIB(h.pop()); q.pop(); removal(); check(); };
    int top = tall(ch, 3000);
    for (int k = 0; k < top; k++) push(k);
    if (O().opmask & OG_COPY) { op("copy"); LIB(H d(h); d.pop(); d.push(5); EXPECT_EQ(C_MODEL, "size", d.size(), q.size())); check(); LIB(H d; d.push(1); d = h; h = d); check(); }
    if (O().opmask & OG_MOVE) { op("move"); LIB(H d(dstruct::move(h)); EXPECT_EQ(C_MODEL, "moved-from", h.size(), 0); h = dstruct::move(d)); check(); }
    while (q.size() > 65500) pop();
    for (int k = 0; k < 60; k++) push(k);
    while (!q.empty()) pop();
    for (int k = 0; k < 30; k++) push(k);
}
static void heap_range(Chooser &ch) {
    typedef dstruct::Heap<int, dstruct::less<int>, A> H; size_t n = (ch.choose(2) ? 131066 : 65530) + ch.choose(6000); dstruct::Vector<int, A> v; Vec<int> s;
    for (size_t k = 0; k < n; k++) { int x = (int)ch.choose(200000); s.push_back(x); LIB(v.push_back(x)); }
    std::sort(s.begin(), s.end());
    { op("construct_range", n); LIB(H h(v.begin(), v.end()); EXPECT_EQ(C_MODEL, "size", h.size(), n); for (size_t k = 0; k < n; k++) { if (h.top() != s[k]) EXPECT_EQ(C_MODEL, "top-priority", h.top(), s[k]); h.pop(); }); removal(); }
    op("sort", n); LIB(H::sort(v.begin(), v.end()));
    for (size_t k = 1; k < n; k++) EXPECT(C_MODEL, "sort-order", !(v[(int)k] < v[(int)k - 1]) || !(v[(int)k - 1] < v[(int)k]) , "?");
    bool up = v[0] <= v[(int)n - 1]; for (size_t k = 1; k < n; k++) EXPECT(C_MODEL, "sort-order", up ? v[(int)k - 1] <= v[(int)k] : v[(int)k - 1] >= v[(int)k], "sort leaves position %zu out of order", k);
    Vec<int> t; for (size_t k = 0; k < n; k++) t.push_back(v[(int)k]); std::sort(t.begin(), t.end()); EXPECT(C_MODEL, "range-conservation", t == s, "sort changes the elements of a range of %zu", n);
    op("done"); removal();
}
template <class X> static typename std::enable_if<sizeof(((X *)0)->height()) != 0>::type height(const X &x, size_t n, int) { double lim = 1.4405 * __builtin_log2((double)n + 2.0); EXPECT(C_MODEL, "avl-height", x.height() <= (int)lim && (n == 0 || x.height() > 0), "height %d for %zu elements", x.height(), n); }
template <class X> static void height(const X &, size_t, long) {}
template <class X, unsigned pat> static void tree_(Chooser &ch) {
    X *x = 0; void *p = malloc(sizeof(X)); LIB(x = new (p) X); std::set<int, std::less<int>, HA<int> > s;
    size_t top = tall(ch, 2000);
    auto full = [&](const X &t) { InLib in; EXPECT_EQ(C_MODEL, "size", t.size(), s.size()); auto m = s.begin(); for (auto it = t.begin(); it != t.end(); ++it, ++m) { EXPECT(C_MODEL, "inorder", m != s.end() && *it == *m, "in-order iteration differs from the sorted contents"); } EXPECT(C_MODEL, "inorder", m == s.end(), "in-order iteration ends too early"); note_size(s.size()); };
    auto check = [&](int k, bool there) { const X &t = *x; EXPECT_EQ(C_MODEL, "size", t.size(), s.size()); EXPECT_EQ(C_MODEL, "empty", t.empty(), s.empty()); if (G().ops % 8 == 0 || edge(s.size())) { auto it = t.find(k); EXPECT(C_MODEL, "find", there ? it != t.end() && *it == k : it == t.end(), "find(%d) is wrong", k); height(t, s.size(), 0); } if (edge(s.size())) full(t); };
    auto push = [&](int k) { if (s.count(k)) return; op("push", k); LIB(x->push(k)); s.insert(k); check(k, true); };
    auto pop = [&](int k) { op("pop", k); LIB(x->pop(k)); s.erase(k); removal(); check(k, false); };
    auto any = [&]() { auto it = s.lower_bound((int)ch.choose(1u << 24)); return it == s.end() ? *s.begin() : *it; };
    for (int k = 0; s.size() < top; k++) push(pat == 0 ? k * 100 : pat == 1 ? (1 << 24) - k * 100 : (int)ch.choose(1u << 24));
    if (O().opmask & OG_COPY) { op("copy"); LIB(X y(*(const X *)x); full(y); y.pop(any()); full(*x); *x = *(const X *)x); full(*x); }
    if (O().opmask & OG_MOVE) { op("move"); LIB(X y(dstruct::move(*x)); EXPECT_EQ(C_MODEL, "moved-from", x->size(), 0); full(y); *x = dstruct::move(y)); full(*x); }
    while (s.size() > 65500) pop(any());
    while (s.size() < 65560) push((int)ch.choose(1u << 24));
    { op("erase_loop"); InLib in; size_t want = s.size(); for (auto it = x->begin(); it != x->end() && want > 65530;) { int k = *it; auto nx = x->erase(it); auto m = s.find(k); EXPECT(C_MODEL, "erase", m != s.end(), "iteration yields %d, which is not there", k); m = s.erase(m); EXPECT(C_MODEL, "erase-next", m == s.end() ? nx == x->end() : *nx == *m, "erase does not return the following element"); it = nx; want--; } }
    full(*x);
    unsigned how = ch.choose(3);
    while (s.size() > (how == 2 ? 30000 : 0)) pop(how == 0 ? *s.begin() : how == 1 ? *s.rbegin() : any());
    full(*x); for (int k = 0; k < 40; k++) push((int)ch.choose(1000));
    LIB(x->~X()); free((void *)x);
}
// one path of thousands of nodes: limits on depth show in what is found at its end
template <bool far_> static void chain(Chooser &ch) {
    typedef dstruct::tree::BinarySearchTree<int, dstruct::less<int>, A> X; X *x = 0; void *p = malloc(sizeof(X)); LIB(x = new (p) X); Vec<int> s, at;
    int n = (far_ ? 32800 : 8000) + (int)ch.choose(1500); unsigned pat = ch.choose(far_ ? 2 : 4); int lo = 0, hi = n - 1;
    op("chain", n, (int)pat); for (int k = 0; k < n; k++) { bool up = pat == 0 || (pat == 2 && k % 2) || (pat == 3 && k < n / 3); int key = 2 * (up ? lo++ : hi--); at.push_back(key); LIB(x->push(key)); } for (int k = 0; k < n; k++) s.push_back(2 * k);
    auto look = [&](const X &t, int k, bool there) { auto it = t.find(k); EXPECT(C_MODEL, "find", there ? it != t.end() && *it == k : it == t.end(), "find(%d) is wrong in a path of %d nodes", k, n); if (there) { size_t i = std::lower_bound(s.begin(), s.end(), k) - s.begin(); ++it; EXPECT(C_MODEL, "find-next", i + 1 < s.size() ? it != t.end() && *it == s[i + 1] : it == t.end(), "the successor of %d is wrong", k); } };
    auto full = [&](const X &t) { InLib in; EXPECT_EQ(C_MODEL, "size", t.size(), s.size()); size_t i = 0; for (auto it = t.begin(); it != t.end(); ++it, i++) EXPECT(C_MODEL, "inorder", i < s.size() && *it == s[i], "in-order iteration differs from the sorted contents"); EXPECT_EQ(C_MODEL, "inorder", i, s.size()); i = 0; for (auto it = t.begin(X::TraversalType::PreOrder); it != t.end(X::TraversalType::PreOrder); ++it) i++; EXPECT_EQ(C_MODEL, "preorder", i, s.size()); i = 0; for (auto it = t.begin(X::TraversalType::PostOrder); it != t.end(X::TraversalType::PostOrder); ++it) i++; EXPECT_EQ(C_MODEL, "postorder", i, s.size()); note_size(s.size()); };
    full(*x); for (int q = 0; q < 60; q++) { int d = q < 20 ? n - 1 - q : (int)ch.choose((unsigned)n); look(*x, at[d], true); look(*x, at[d] + 1, false); }
    if (!far_ && (O().opmask & OG_COPY)) { op("copy"); LIB(X y(*(const X *)x); full(y); look(y, at[n - 1], true)); full(*x); }
    if (O().opmask & OG_MOVE) { op("move"); LIB(X y(dstruct::move(*x)); EXPECT_EQ(C_MODEL, "moved-from", x->size(), 0); look(y, at[n - 1], true); *x = dstruct::move(y)); full(*x); }
    for (int q = 0; q < 40; q++) {
        size_t i = q < 10 ? s.size() - 1 - (size_t)q : q < 20 ? (size_t)q : ch.choose((unsigned)s.size()); int k = s[i];
        if (far_ || ch.choose(2)) { op("erase", k); LIB(auto it = x->find(k); auto nx = x->erase(it); EXPECT(C_MODEL, "erase-next", i + 1 < s.size() ? nx != x->end() && *nx == s[i + 1] : nx == x->end(), "erase does not return the following element")); } else { op("pop", k); LIB(x->pop(k)); }
        s.erase(s.begin() + i); removal(); look(*x, k, false); EXPECT_EQ(C_MODEL, "size", x->size(), s.size());
    }
    full(*x); look(*x, s[0], true); look(*x, s[s.size() - 1], true);
    if (ch.choose(2)) { op("clear"); LIB(x->clear()); s.clear(); full(*x); LIB(x->push(1)); EXPECT_EQ(C_MODEL, "size", x->size(), 1); }
    LIB(x->~X()); free((void *)x);
}
static void map_(Chooser &ch) {
    typedef dstruct::Map<int, int, dstruct::less<int>, dstruct::AVLTree<dstruct::KeyValue<const int, int>, dstruct::KVCMPKey<dstruct::KeyValue<const int, int>, dstruct::less<int> >, A> > M;
    M x; std::map<int, int, std::less<int>, HA<std::pair<const int, int> > > s; size_t top = tall(ch, 2000);
    auto full = [&](const M &t) { InLib in; EXPECT_EQ(C_MODEL, "size", t.size(), s.size()); auto m = s.begin(); for (auto it = t.begin(); it != t.end(); ++it, ++m) EXPECT(C_MODEL, "iterate", m != s.end() && it->key == m->first && it->value == m->second, "iteration differs from the dictionary"); EXPECT(C_MODEL, "iterate", m == s.end(), "iteration ends too early"); for (m = s.begin(); m != s.end(); ++m) { EXPECT_EQ(C_MODEL, "index-const", t[m->first], m->second); auto it = t.find(m->first); EXPECT(C_MODEL, "find", it != t.end() && it->key == m->first, "find(%d) does not find it", m->first); } note_size(s.size()); };
    auto look = [&](int k) { const M &t = x; EXPECT_EQ(C_MODEL, "size", t.size(), s.size()); auto it = t.find(k); auto m = s.find(k); EXPECT(C_MODEL, "find", m == s.end() ? it == t.end() : it != t.end() && it->value == m->second, "find(%d) is wrong", k); if (m != s.end()) { EXPECT_EQ(C_MODEL, "index-const", t[k], m->second); EXPECT_EQ(C_MODEL, "index", x[k], m->second); } if (edge(s.size())) full(x); };
    auto set = [&](int k, int v) { op("set", k, v); LIB(x[k] = v); s[k] = v; look(k); };
    auto any = [&]() { auto it = s.lower_bound((int)ch.choose(1u << 24)); return it == s.end() ? s.begin()->first : it->first; };
    for (int k = 1; s.size() < top; k++) { set((int)ch.choose(1u << 24), k); if (k % 16 == 0) set(any(), -k); }
    if (O().opmask & OG_COPY) { op("copy"); LIB(M y(x); full(y); y[any()] = 77777777; y.pop(any()); full(x); M z; z[1] = 1; z = x; full(z)); }
    if (O().opmask & OG_MOVE) { op("move"); LIB(M y(dstruct::move(x)); EXPECT_EQ(C_MODEL, "moved-from", x.size(), 0); full(y); x = dstruct::move(y)); full(x); }
    while (s.size() > 65500) { int k = any(); op("pop", k); LIB(x.pop(k)); s.erase(k); removal(); look(k); }
    for (int k = 1; s.size() < 65560; k++) set((int)ch.choose(1u << 24), k);
    while (!s.empty()) { int k = any(); op("erase", k); LIB(auto it = x.find(k); x.erase(it)); s.erase(k); removal(); look(k); }
    set(5, 6); full(x);
}

// the sparsest balanced trees of a height: removing the shallowest leaf rebalances every ancestor
static int fib_size(int h) { return h <= 0 ? 0 : h == 1 ? 1 : fib_size(h - 1) + fib_size(h - 2) + 1; }
struct Fib { Vec<Vec<int> > lv; unsigned how; uint32_t salt; int shallow, deep; };     // how: which side is taller -- left, right, alternating, or anything
static void fib_keys(Fib &f, int h, int lo, size_t depth, bool sh, bool dp) {
    if (h <= 0) return;
    while (f.lv.size() <= depth) f.lv.push_back(Vec<int>());
    bool right = f.how < 2 ? f.how == 1 : f.how == 2 ? depth & 1 : mix(f.salt + (unsigned)lo, (uint64_t)h) >> 7 & 1;
    int l = right ? h - 2 : h - 1, r = right ? h - 1 : h - 2; if (h == 1) l = r = 0;
    int at = lo + fib_size(l); f.lv[depth].push_back(at);
    int most = l > r ? l : r, least = l > r ? r : l; if (least <= 0) { if (sh) f.shallow = at; sh = false; } if (most <= 0) { if (dp) f.deep = at; dp = false; }
    fib_keys(f, l, lo, depth + 1, sh && l == least, dp && l == most); fib_keys(f, r, at + 1, depth + 1, sh && l != least, dp && l != most);
}
static int pre_height(const Vec<int> &pre, size_t &i, long lim, int *worst) {
    if (i >= pre.size() || pre[i] >= lim) return 0;
    int k = pre[i++], l = pre_height(pre, i, k, worst), r = pre_height(pre, i, lim, worst), d = l > r ? l - r : r - l;
    if (d > *worst) *worst = d;
    return 1 + (l > r ? l : r);
}
struct PreCb { Vec<int> *v; void operator()(const dstruct::AVLData_<int> &d) { v->push_back(d.val); } void operator()(int d) { v->push_back(d); } };
static void cascade(Chooser &ch) {
    typedef dstruct::AVLTree<int, dstruct::less<int>, A> X; X x; std::set<int, std::less<int>, HA<int> > s;
    int h = 12 + (int)ch.choose(8); Fib f; f.how = ch.choose(4); f.salt = ch.choose(1u << 16); f.shallow = f.deep = 1; fib_keys(f, h, 1, 0, true, true); Vec<Vec<int> > &lv = f.lv;
    auto full = [&](const X &t) {
        InLib in; EXPECT_EQ(C_MODEL, "size", t.size(), s.size()); Vec<int> pre; PreCb cb = { &pre }; t.traversal(cb, X::TraversalType::PreOrder);
        size_t i = 0; int worst = 0; int real = pre_height(pre, i, 1l << 40, &worst);
        EXPECT(C_MODEL, "avl-balance", worst <= 1, "subtree heights differ by %d in a tree of %zu elements", worst, s.size());
        EXPECT_EQ(C_MODEL, "avl-height", t.height(), real);
        auto m = s.begin(); for (auto it = t.begin(); it != t.end(); ++it, ++m) EXPECT(C_MODEL, "inorder", m != s.end() && *it == *m, "in-order iteration differs from the sorted contents");
        EXPECT(C_MODEL, "inorder", m == s.end(), "in-order iteration ends too early"); note_size(s.size()); note_state(mix(s.size(), (uint64_t)real));
    };
    for (size_t i = 0; i < lv.size(); i++) for (size_t j = 0; j < lv[i].size(); j++) { op("push", lv[i][j]); LIB(x.push(lv[i][j])); s.insert(lv[i][j]); }
    full(x); EXPECT_EQ(C_MODEL, "avl-height", x.height(), h);
    unsigned by = ch.choose(3);
    for (int q = 0; q < 60 && !s.empty(); q++) {
        unsigned w = q == 0 ? ch.choose(2) : 2 + ch.choose(4); int k = w == 0 ? f.shallow : w == 1 ? f.deep : w == 2 ? *s.begin() : w == 3 ? *s.rbegin() : *s.lower_bound(1 + (int)ch.choose((unsigned)*s.rbegin()));
        if (by == 0 || (by == 2 && ch.choose(2))) { op("pop", k); LIB(x.pop(k)); s.erase(k); }
        else { op("erase", k); LIB(auto nx = x.erase(x.find(k)); auto m = s.erase(s.find(k)); EXPECT(C_MODEL, "erase-next", m == s.end() ? nx == x.end() : *nx == *m, "erase does not return the following element")); }
        removal(); full(x);
        if (O().opmask & OG_COPY && q % 20 == 19) { op("copy"); LIB(X y(*(const X *)&x); full(y); y.erase(y.begin()); x = *(const X *)&x); full(x); }
        if (O().opmask & OG_MOVE && q % 20 == 9) { op("move"); LIB(X y(dstruct::move(x)); EXPECT_EQ(C_MODEL, "moved-from", x.size(), 0); full(y); x = dstruct::move(y)); full(x); }
    }
}

int main(int argc, char **argv) {
#ifndef VH_NO_WATCH
    watch_malloc();
#endif
    using namespace dstruct;
    add("huge-vector", "vector<int>/huge", 1, seq<VectorEnds, Vector<int, A>, int, 131080>);
    add("huge-vector", "vector<Tracked>/huge", 1, seq<VectorEnds, Vector<Tracked, A>, Tracked, 66000>);
    add("huge-vector", "vector<int>/huge-count", 2, count_<Vector<int, A>, int>);
    add("huge-list", "slist<int>/huge-count", 2, count_<SinglyLinkedList<int, A>, int>);
    add("huge-list", "dlist<int>/huge-count", 2, count_<DoublyLinkedList<int, A>, int>);
    add("huge-vector", "vector<int>/huge-resize", 2, vec_resize);
    add("huge-string", "string/huge", 1, seq<StringEnds, BasicString<char, A>, char, 131080>);
    add("huge-string", "string/huge-append", 6, str_append);
    add("huge-list", "slist<int>/huge", 2, seq<SListEnds, SinglyLinkedList<int, A>, int, 131080>);
    add("huge-list", "dlist<int>/huge", 2, seq<DListEnds, DoublyLinkedList<int, A>, int, 131080>);
    add("huge-deque", "deque<int,32>/huge", 2, seq<DequeEnds, DoubleEndedQueue<int, 32, A>, int, 131080>);
    add("huge-deque", "deque<int,70000>/huge", 1, seq<DequeEnds, DoubleEndedQueue<int, 70000, A>, int, 142000>);
    add("huge-deque", "deque<int,1000>/huge", 1, seq<DequeEnds, DoubleEndedQueue<int, 1000, A>, int, 66000>);
    add("huge-deque", "deque<int,4>/huge", 2, seq<DequeEnds, DoubleEndedQueue<int, 4, A>, int, 66000>);
    add("huge-deque", "deque<int,1>/huge", 1, seq<DequeEnds, DoubleEndedQueue<int, 1, A>, int, 131080>);
    add("huge-tracked", "deque<Tracked,16>/huge", 1, seq<DequeEnds, DoubleEndedQueue<Tracked, 16, A>, Tracked, 66000>);
    add("huge-tracked", "dlist<Tracked>/huge", 1, seq<DListEnds, DoublyLinkedList<Tracked, A>, Tracked, 66000>);
    add("huge-tracked", "slist<Tracked>/huge", 1, seq<SListEnds, SinglyLinkedList<Tracked, A>, Tracked, 66000>);
    add("huge-tracked", "vector<Tracked>/huge-count", 1, count_<Vector<Tracked, A>, Tracked>);
    add("huge-adapters", "queue<int,deque>/huge", 1, seq<DequeQueueEnds, adapter::Queue<int, DoubleEndedQueue<int, 32, A> >, int, 66000>);
    add("huge-adapters", "queue<int,dlist>/huge", 1, seq<QueueEnds, adapter::Queue<int, DoublyLinkedList<int, A> >, int, 66000>);
    add("huge-adapters", "queue<int,slist>/huge", 1, seq<QueueEnds, adapter::Queue<int, SinglyLinkedList<int, A> >, int, 66000>);
    add("huge-adapters", "stack<int,vector>/huge", 1, stack_<adapter::Stack<int, Vector<int, A> >, NoX, 2>);
    add("huge-adapters", "stack<int,deque>/huge", 1, stack_<adapter::Stack<int, DoubleEndedQueue<int, 8, A> >, NoX, 2>);
    add("huge-xstack", "minstack<int>/huge-0", 1, stack_<stack::XValueStack<int, less<int>, adapter::Stack<int, Vector<int, A> > >, MinX, 0>);
    add("huge-xstack", "minstack<int>/huge-1", 1, stack_<stack::XValueStack<int, less<int>, adapter::Stack<int, Vector<int, A> > >, MinX, 1>);
    add("huge-xstack", "minstack<int>/huge-2", 1, stack_<stack::XValueStack<int, less<int>, adapter::Stack<int, Vector<int, A> > >, MinX, 2>);
    add("huge-xstack", "minstack<int>/huge-3", 1, stack_<stack::XValueStack<int, less<int>, adapter::Stack<int, Vector<int, A> > >, MinX, 3>);
    add("huge-xstack", "maxstack<int>/huge-0", 1, stack_<stack::XValueStack<int, greater<int>, adapter::Stack<int, DoubleEndedQueue<int, 32, A> > >, MaxX, 0>);
    add("huge-xstack", "maxstack<int>/huge-1", 1, stack_<stack::XValueStack<int, greater<int>, adapter::Stack<int, DoubleEndedQueue<int, 32, A> > >, MaxX, 1>);
    add("huge-xstack", "maxstack<int>/huge-2", 1, stack_<stack::XValueStack<int, greater<int>, adapter::Stack<int, DoubleEndedQueue<int, 32, A> > >, MaxX, 2>);
    add("huge-xstack", "maxstack<int>/huge-3", 1, stack_<stack::XValueStack<int, greater<int>, adapter::Stack<int, DoubleEndedQueue<int, 32, A> > >, MaxX, 3>);
    add("huge-tracked", "minstack<Tracked>/huge-0", 1, stack_<stack::XValueStack<Tracked, less<Tracked>, adapter::Stack<Tracked, Vector<Tracked, A> > >, MinX, 0, Tracked>);
    add("huge-tracked", "minstack<Tracked>/huge-1", 1, stack_<stack::XValueStack<Tracked, less<Tracked>, adapter::Stack<Tracked, DoubleEndedQueue<Tracked, 8, A> > >, MinX, 1, Tracked>);
    add("huge-tracked", "maxstack<Tracked>/huge-0", 1, stack_<stack::XValueStack<Tracked, greater<Tracked>, adapter::Stack<Tracked, Vector<Tracked, A> > >, MaxX, 0, Tracked>);
    add("huge-heap", "minheap<int>/huge", 1, heap_<0>);
    add("huge-heap", "minheap<int>/huge-down", 1, heap_<1>);
    add("huge-heap", "minheap<int>/huge-random", 2, heap_<2>);
    add("huge-heap", "minheap<int>/huge-few", 1, heap_<3>);
    add("huge-heap", "minheap<int>/huge-range", 2, heap_range);
    add("huge-bst", "bst<int>/huge", 2, tree_<tree::BinarySearchTree<int, less<int>, A>, 2>);
    add("huge-bst", "bst<int>/chain", 6, chain<false>);
    add("huge-bst", "bst<int>/far-chain", 1, chain<true>);
    add("huge-avl", "avl<int>/huge", 2, tree_<AVLTree<int, less<int>, A>, 2>);
    add("huge-avl", "avl<int>/huge-up", 1, tree_<AVLTree<int, less<int>, A>, 0>);
    add("huge-avl", "avl<int>/huge-down", 1, tree_<AVLTree<int, less<int>, A>, 1>);
    add("huge-avl", "avl<int>/cascade", 40, cascade);
    add("huge-map", "map<int,int>/huge", 2, map_);
    return vh_main(argc, argv);
}
