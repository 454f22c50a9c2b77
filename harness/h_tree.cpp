// BinarySearchTree and AVLTree: ordered set behaviour, traversal orders, balance.
#include "pool.hpp"
#include <math.h>
using namespace vh;
// suites: random / exhaustive / large check the set behaviour; their "orders" variants
// (suite names with -orders) additionally compare all traversals with each other.

template <class T> struct KLess { typedef dstruct::less<T> Cmp; static bool before(int a, int b) { return a < b; } };
template <class T> struct KGreater { typedef dstruct::greater<T> Cmp; static bool before(int a, int b) { return a > b; } };
struct BitCmp { static unsigned r(unsigned x) { unsigned y = 0; for (int i = 0; i < 16; i++) if (x >> i & 1) y |= 1u << (15 - i); return y; }
                bool operator()(const Tracked &a, const Tracked &b) const { return r(a.k) < r(b.k); } bool operator()(int a, int b) const { return r(a) < r(b); } };
struct KBit { typedef BitCmp Cmp; static bool before(int a, int b) { return BitCmp::r(a) < BitCmp::r(b); } };

template <class T, class Cmp, class A> struct BstKind {
    typedef dstruct::tree::BinarySearchTree<T, Cmp, A> X; enum { avl = 0 };
    static int height(const X &) { return -1; }
    static X *range(void *p, dstruct::Vector<T, A> &v) { return new (p) X(v.begin(), v.end()); }
};
template <class T, class Cmp, class A> struct AvlKind {
    typedef dstruct::AVLTree<T, Cmp, A> X; enum { avl = 1 };
    static int height(const X &x) { return x.height(); }
    static X *range(void *, dstruct::Vector<T, A> &) { return 0; }
};
template <class T> struct KeyOf { static int key(const T &v) { return Val<T>::key(v); } static int key(const dstruct::AVLData_<T> &v) { return Val<T>::key(v.val); } };
template <class T> struct Collect { Seq *out; template <class V> void operator()(V &v) { OutLib ol; out->push_back(KeyOf<T>::key(v)); } };

enum { ORD_NONE, ORD_ALL };
static int g_orders = ORD_ALL;

template <class T, class KC, class Kind, class A>
struct TreeDrv : Pool<typename Kind::X, Seq, TreeDrv<T, KC, Kind, A> > {
    typedef typename Kind::X X;
    typedef Pool<X, Seq, TreeDrv<T, KC, Kind, A> > P;
    using P::o; using P::m; using P::ch; using P::K;
    size_t maxsize; unsigned groups; Phase ph[4]; unsigned range; int seq; unsigned pattern;
    struct Addr { int k; const void *p; };
    Vec<Addr> ad[4];
    TreeDrv(Chooser &c, int k, size_t mx, unsigned g) : P(c, k), maxsize(mx), groups(g), seq(0) {
        range = c.ex ? 5 : (unsigned)mx * (2 + c.choose(3)) + 3; pattern = c.ex ? 0 : c.choose(4); this->create_all();
    }
    X *fresh(void *p) { return new (p) X; }
    Seq fresh_model() { return Seq(); }
    static bool before(int a, int b) { return KC::before(a, b); }
    static size_t lower(const Seq &s, int x) { return std::lower_bound(s.begin(), s.end(), x, before) - s.begin(); }
    static bool has(const Seq &s, int x) { size_t i = lower(s, x); return i < s.size() && s[i] == x; }
    int draw() {
        if (pattern == 1) { seq++; return Val<T>::norm(1 + seq % (int)range); }             // ascending
        if (pattern == 2) { seq++; return Val<T>::norm((int)range - seq % (int)range); }     // descending
        if (!ch.ex && ch.choose(40) == 0) return Val<T>::norm(odd_value(ch.choose(6)));
        return Val<T>::norm(1 + (int)ch.choose(range) - (int)range / 3);
    }
    // shape from preorder + inorder; yields postorder and per node heights
    static int shape(const Seq &pre, size_t &pi, const Seq &in, size_t lo, size_t hi, Seq &post, int *worst) {
        if (lo >= hi) return 0;
        if (pi >= pre.size()) viol(C_MODEL, "orders", "preorder and inorder do not describe one tree");
        int k = pre[pi++]; size_t at = lower(in, k);
        if (at < lo || at >= hi || in[at] != k) viol(C_MODEL, "orders", "preorder and inorder do not describe one tree (key %d)", k);
        int l = shape(pre, pi, in, lo, at, post, worst), r = shape(pre, pi, in, at + 1, hi, post, worst);
        post.push_back(k);
        int d = l > r ? l - r : r - l; if (d > *worst) *worst = d;
        return 1 + (l > r ? l : r);
    }
    template <class TT> Seq by_iter(const X &x, TT tt, size_t n, bool post) {
        Seq r;
        if (post) { for (auto it = x.begin(tt); it != x.end(tt);) { EXPECT(C_MODEL, "iterate", r.size() <= n, "iteration does not end after the %zu elements", n); auto was = it, old = it++; EXPECT(C_MODEL, "iterate", old == was && !(old != was), "it++ does not return the position before the step"); r.push_back(Val<T>::key(*old)); } }
        else { for (auto it = x.begin(tt); !(it == x.end(tt));) { EXPECT(C_MODEL, "iterate", r.size() <= n, "iteration does not end after the %zu elements", n); r.push_back(Val<T>::key(*it.operator->())); const void *self = &++it; EXPECT(C_MODEL, "iterate", self == &it, "++it does not return the iterator itself"); } }
        return r;
    }
    template <class TT> Seq by_cb(const X &x, TT tt) { Seq r; Collect<T> c = { &r }; x.traversal(c, tt); return r; }

    void verify(int i, bool full) {
        InLib in;
        const X &x = *o[i]; const Seq &s = m[i]; size_t n = s.size();
        EXPECT_EQ(C_MODEL, "size", x.size(), n);
        EXPECT(C_MODEL, "capacity", x.capacity() >= x.size(), "capacity below size");
        EXPECT_EQ(C_MODEL, "empty", x.empty(), s.empty());
        note_size(n);
        // an in-order probe near a changing position
        if (n) { int k = s[G().ops % n]; auto it = x.find(make(k)); EXPECT(C_MODEL, "find", it != x.end() && Val<T>::key(*it) == k, "find(%d) does not find it", k); k = s[G().ops & 1 ? 0 : n - 1]; auto e = x.find(make(k)); EXPECT(C_MODEL, "find", e != x.end() && Val<T>::key(*e) == k, "find(%d) does not find it", k); ++e; EXPECT(C_MODEL, "find-next", n > 1 && (G().ops & 1) ? e != x.end() && Val<T>::key(*e) == s[1] : e == x.end(), "the successor of the found element is wrong"); }
        if (Kind::avl) {
            int h = Kind::height(x);
            double lim = 1.4405 * log2((double)n + 2.0);
            EXPECT(C_MODEL, "avl-height", h <= (int)lim && (n == 0) == (h == 0) && (h >= 31 || (1ll << h) > (long long)n), "height %d for %zu elements", h, n);
        }
        if (!full) return;
        if (IsTracked<T>::value) this->check_live(0, 0);
        EXPECT(C_MODEL, "inorder", by_iter(x, X::TraversalType::InOrder, n, G().ops & 1) == s, "in-order iteration is not the sorted contents");
        { Seq r; for (auto it = x.begin(); it != x.end() && r.size() <= n; ++it) r.push_back(Val<T>::key(*it)); EXPECT(C_MODEL, "range-for", r == s, "default iteration is not the sorted contents"); }
        for (size_t k = 0; k < n && n <= 40; k++) { auto it = x.find(make(s[k])); EXPECT(C_MODEL, "find", it != x.end() && Val<T>::key(*it) == s[k], "find(%d) does not find it", s[k]);
            ++it; EXPECT(C_MODEL, "find-next", k + 1 < n ? it != x.end() && Val<T>::key(*it) == s[k + 1] : it == x.end(), "the successor of the found element is wrong"); }
        if (ch.ex || G().ops % 3 == 0) for (int q = 0; q < 3; q++) { int k = Val<T>::norm((int)(G().ops * 7 + q * 5) % (int)(range + 2)); if (!has(s, k)) EXPECT(C_MODEL, "find-absent", x.find(make(k)) == x.end(), "find(%d) finds an absent element", k); }
        if (g_orders) orders(x, s);
        stable(i);
        note_state(hash_seq(by_cb(x, X::TraversalType::PreOrder)));
    }
    void orders(const X &x, const Seq &s) {
        size_t n = s.size();
        Seq pre = by_cb(x, X::TraversalType::PreOrder), ino = by_cb(x, X::TraversalType::InOrder), post = by_cb(x, X::TraversalType::PostOrder);
        EXPECT(C_MODEL, "traversal-inorder", ino == s, "in-order traversal does not visit the sorted contents");
        EXPECT_EQ(C_MODEL, "traversal-preorder", pre.size(), n);
        EXPECT_EQ(C_MODEL, "traversal-postorder", post.size(), n);
        Seq want; size_t pi = 0; int worst = 0;
        int h = shape(pre, pi, s, 0, n, want, &worst);
        EXPECT(C_MODEL, "traversal-postorder", post == want, "post-order traversal does not fit pre-order and in-order of the same tree");
        EXPECT(C_MODEL, "iterate-preorder", by_iter(x, X::TraversalType::PreOrder, n, true) == pre, "pre-order iteration differs from pre-order traversal");
        EXPECT(C_MODEL, "iterate-postorder", by_iter(x, X::TraversalType::PostOrder, n, false) == post, "post-order iteration differs from post-order traversal");
        EXPECT(C_MODEL, "iterate-inorder", by_iter(x, X::TraversalType::InOrder, n, true) == ino, "in-order iteration differs from in-order traversal");
        if (Kind::avl) {
            EXPECT(C_MODEL, "avl-balance", worst <= 1, "subtree heights differ by %d", worst);
            EXPECT_EQ(C_MODEL, "avl-height", Kind::height(x), h);
        }
    }
    // addresses of AVL elements never change while they are in the tree
    void stable(int i) {
        if (!Kind::avl) return;
        const X &x = *o[i];
        for (size_t k = 0; k < ad[i].size(); k++) {
            if (!has(m[i], ad[i][k].k)) { ad[i][k] = ad[i].back(); ad[i].pop_back(); k--; continue; }
            auto it = x.find(make(ad[i][k].k));
            EXPECT(C_STABLE, "element-moved", it != x.end() && (const void *)it.operator->() == ad[i][k].p, "element %d is at another address than when it was inserted", ad[i][k].k);
        }
    }
    void learned(int i, int k) { if (!Kind::avl || ch.ex) return; auto it = o[i]->find(make(k)); if (it != o[i]->end()) { Addr a = { k, (const void *)it.operator->() }; ad[i].push_back(a); } }
    static T make(int k) { return Val<T>::make(k); }

    void insert(int i, int k) {
        Seq &s = m[i]; size_t at = lower(s, k);
        if (at < s.size() && s[at] == k) {
            if (Kind::avl || pattern >= 1) {     // inserting a duplicate into an AVLTree is a misuse: take a free key nearby
                if (ch.ex) { op("noop"); return; }
                int q = k; for (int d = 1; d < 200; d++) { if (!has(s, q = Val<T>::norm(k + d))) break; if (!has(s, q = Val<T>::norm(k - d))) break; }
                if (has(s, q)) { op("noop"); return; }
                k = q; at = lower(s, k);
            } else { op("push_duplicate", i, k); T t = make(k); LIB(o[i]->push(t)); return; }
        }
        op("push", i, k); T t = make(k); LIB(o[i]->push(t)); s.insert(s.begin() + at, k); learned(i, k);
    }
    void drop(int i, int k) { for (size_t q = 0; q < ad[i].size(); q++) if (ad[i][q].k == k) { ad[i][q] = ad[i].back(); ad[i].pop_back(); break; } }
    void pop(int i, int k) {
        Seq &s = m[i]; size_t at = lower(s, k); bool there = at < s.size() && s[at] == k;
        op(there ? "pop" : "pop_absent", i, k); T t = make(k); LIB(o[i]->pop(t));
        if (there) { s.erase(s.begin() + at); drop(i, k); removal(); }
    }
    void erase(int i, size_t at) {
        Seq &s = m[i]; int k = s[at]; X &x = *o[i];
        op("erase", i, k);
        InLib in;
        auto it = ch.ex || ch.choose(2) ? x.find(make(k)) : nth(x, at);
        EXPECT(C_MODEL, "find", it != x.end() && Val<T>::key(*it) == k, "element %d not found", k);
        auto next = x.erase(it);
        s.erase(s.begin() + at); drop(i, k); removal();
        EXPECT(C_MODEL, "erase-next", at < s.size() ? next != x.end() && Val<T>::key(*next) == s[at] : next == x.end(), "erase does not return the following element");
        size_t q = at; for (; next != x.end() && q < s.size() && q < at + 5; ++next, ++q) EXPECT_EQ(C_MODEL, "erase-next", Val<T>::key(*next), s[q]);
    }
    auto nth(X &x, size_t at) -> decltype(x.begin()) { auto it = x.begin(); while (at--) it++; return it; }
    void erase_loop(int i) {  // erase every element of a residue class while iterating
        Seq &s = m[i]; X &x = *o[i]; int md = 2 + (int)ch.choose(3), rs = (int)ch.choose(md);
        op("erase_loop", i, md, rs);
        InLib in;
        Seq rest; size_t n = s.size(), steps = 0;
        for (size_t k = 0; k < n; k++) if (s[k] % md != rs) rest.push_back(s[k]); else drop(i, s[k]);
        for (auto it = x.begin(); it != x.end();) { EXPECT(C_MODEL, "erase-loop", ++steps <= n + 1, "erasing while iterating does not end"); if (Val<T>::key(*it) % md == rs) { auto nx = x.erase(it); it = nx; } else ++it; }
        s = rest; removal();
    }
    void from_range(int i) {
        size_t n = ch.choose((unsigned)maxsize + 1); dstruct::Vector<T, A> v; Seq s;
        for (size_t k = 0; k < n; k++) { int x = draw(); T t = make(x); LIB(v.push_back(t)); size_t at = lower(s, x); if (!(at < s.size() && s[at] == x)) s.insert(s.begin() + at, x); }
        op("construct_range", i, n); this->kill(i); ad[i].clear(); X *p = 0; void *q = this->mem(); LIB(p = Kind::range(q, v)); o[i] = p; m[i] = s; removal();
    }
    void alias_op(int i) {
        Seq &s = m[i]; X &x = *o[i];
        if (s.empty()) return;
        size_t at = ch.choose((unsigned)s.size()); int k = s[at]; auto it = x.find(make(k)); const T &ref = *it;
        if (Kind::avl || ch.choose(2)) { op("pop_own", i, k); LIB(x.pop(ref)); s.erase(s.begin() + at); drop(i, k); removal(); }
        else { op("push_own", i, k); LIB(x.push(ref)); }
    }
    void step() {
        int i = (int)ch.choose(K);
        unsigned r = this->roll(maxsize);
        if ((groups & OG_COPY) && r < 8) { for (int j = 0; j < K; j++) ad[j].clear(); return this->copy_op(i); }
        if ((groups & OG_MOVE) && r >= 8 && r < 16) { for (int j = 0; j < K; j++) ad[j].clear(); return this->move_op(i); }
        if ((groups & OG_ALIAS) && r >= 16 && r < 26) { alias_op(i); verify(i, true); return; }
        Seq &s = m[i];
        if (r >= 98) { ad[i].clear(); this->recreate_op(i); return; }
        if (r == 97) { op("clear", i); LIB(o[i]->clear()); s.clear(); ad[i].clear(); removal(); }
        else if (r == 96 && !Kind::avl) from_range(i);
        else if (r >= 95 && !s.empty()) erase_loop(i);
        else if (r >= 89 && !s.empty()) erase(i, ch.choose((unsigned)s.size()));
        else if (r >= 86) pop(i, draw());
        else if (s.empty() || ph[i].want_grow(ch, s.size(), maxsize)) insert(i, draw());
        else pop(i, s[pattern == 3 ? 0 : ch.choose((unsigned)s.size())]);
        verify(i, s.size() < 24 ? ch.choose(2) == 0 : ch.choose(30) == 0);
    }
    void step_ex() {
        int i = (int)ch.choose(K), j = K - 1 - i; bool cm = (groups & (OG_COPY | OG_MOVE)) != 0; Seq &s = m[i];
        unsigned r = ch.choose(cm ? 12 : 9);
        if (r < 5) insert(i, 1 + (int)r);
        else if (r < 7) { if (s.empty()) op("noop"); else { size_t at = r == 5 ? 0 : s.size() / 2; pop(i, s[at]); } }
        else if (r < 9) { if (s.empty()) op("noop"); else { size_t at = r == 7 ? s.size() - 1 : s.size() / 2; int k = s[at]; op("erase", i, k); InLib in; X &x = *o[i]; auto nx = x.erase(x.find(make(k))); s.erase(s.begin() + at); removal(); EXPECT(C_MODEL, "erase-next", at < s.size() ? nx != x.end() && Val<T>::key(*nx) == s[at] : nx == x.end(), "erase does not return the following element"); } }
        else if (r == 9 && (groups & OG_COPY)) { op("copy_assign", i, j); LIB(*o[i] = *(const X *)o[j]); m[i] = m[j]; removal(); }
        else if (r == 10 && (groups & OG_MOVE)) { op("move_assign", i, j); LIB(*o[i] = dstruct::move(*o[j])); if (i != j) { m[i] = m[j]; m[j].clear(); } removal(); }
        else { op("clear", i); LIB(o[i]->clear()); s.clear(); removal(); }
        if (ch.unseen()) for (int k = 0; k < K; k++) verify(k, true);
    }
    void finish() {
        for (int i = 0; i < K; i++) {
            verify(i, true);
            if (ch.choose(3) == 0) while (!m[i].empty()) { pop(i, m[i][ch.choose((unsigned)m[i].size())]); verify(i, m[i].size() < 60); }
        }
    }
};
template <class T, class KC, class Kind, class A> static void rnd(Chooser &ch) {
    const bool many = ch.choose(24) == 0; TreeDrv<T, KC, Kind, A> d(ch, 1 + ch.choose(3), many ? 60 + ch.choose(140) : 1 + ch.choose(ch.choose(3) ? 12 : 50), O().opmask);
    int n = (many ? 300 : 20) + (int)ch.choose(140);
    while (n--) d.step();
    d.finish();
}
template <class T, class KC, class Kind, class A> static void big(Chooser &ch) {
    TreeDrv<T, KC, Kind, A> d(ch, 1, Kind::avl ? 1500 : 400, O().opmask);
    for (int i = 0; i < 3000; i++) d.step();
    d.verify(0, true);
}
template <class T, class KC, class Kind, class A, int D> static void exh(Chooser &ch) {
    bool cm = (O().opmask & (OG_COPY | OG_MOVE)) != 0;
    TreeDrv<T, KC, Kind, A> d(ch, cm ? 2 : 1, 1000, O().opmask);
    int n = D - (cm ? 3 : 0) + O().depth_bonus;
    while (n--) d.step_ex();
}
// breadth-first keys of the sparsest balanced tree of a height: removals there cascade
static int fib_size(int h) { return h <= 0 ? 0 : h == 1 ? 1 : fib_size(h - 1) + fib_size(h - 2) + 1; }
static void fib_keys(int h, int lo, bool mirror, int depth, Vec<Seq> &lv) {
    if (h <= 0) return;
    while ((int)lv.size() <= depth) lv.push_back(Seq());
    int l = mirror ? h - 2 : h - 1, r = mirror ? h - 1 : h - 2; if (h == 1) l = r = 0;
    int at = lo + fib_size(l); lv[depth].push_back(at);
    fib_keys(l, lo, mirror, depth + 1, lv); fib_keys(r, at + 1, mirror, depth + 1, lv);
}
// fill in some order, then empty in some order, checking the whole tree after every removal
template <class T, class KC, class Kind, class A> static void fill(Chooser &ch) {
    TreeDrv<T, KC, Kind, A> d(ch, 1, 1000, O().opmask);
    unsigned f = ch.choose(6); int n = 1 + (int)ch.choose(ch.choose(3) ? 24 : 90); Seq ks;
    if (f >= 4) { Vec<Seq> lv; int h = 2 + (int)ch.choose(6); fib_keys(h, 1, f == 5, 0, lv); for (size_t i = 0; i < lv.size(); i++) for (size_t j = 0; j < lv[i].size(); j++) ks.push_back(lv[i][j]); }
    else for (int i = 1; i <= n; i++) ks.push_back(f == 1 ? n + 1 - i : i);
    if (f == 2 || f == 3) for (size_t i = ks.size(); i > 1; i--) std::swap(ks[i - 1], ks[ch.choose((unsigned)i)]);
    for (size_t i = 0; i < ks.size(); i++) { d.insert(0, Val<T>::norm(ks[i])); if (i < 16) d.verify(0, true); }
    d.verify(0, true);
    unsigned how = ch.choose(5);
    while (!d.m[0].empty()) {
        Seq &s = d.m[0]; size_t at = how == 0 ? 0 : how == 1 ? s.size() - 1 : ch.choose((unsigned)s.size());
        if (how == 2) at = TreeDrv<T, KC, Kind, A>::lower(s, Val<T>::key(*d.o[0]->begin(TreeDrv<T, KC, Kind, A>::X::TraversalType::PreOrder)));   // the root
        if (how == 3) at = TreeDrv<T, KC, Kind, A>::lower(s, Val<T>::key(*d.o[0]->begin(TreeDrv<T, KC, Kind, A>::X::TraversalType::PostOrder)));  // a leaf
        if (ch.choose(2)) d.erase(0, at); else d.pop(0, s[at]);
        d.verify(0, true);
    }
    d.verify(0, true);
}
// one long path of nodes (keys in order, in reverse, alternating or mixed), then trips over it
template <class T, class KC, class Kind, class A> static void deep(Chooser &ch) {
    typedef typename Kind::X X;
    TreeDrv<T, KC, Kind, A> d(ch, 2, 4000, O().opmask);
    int n = 600 + (int)ch.choose(ch.choose(3) ? 700 : 2400), lo = 1, hi = n; unsigned f = ch.choose(5);
    for (int k = 0; k < n; k++) {
        bool up = f == 0 ? true : f == 1 ? false : f == 2 ? k % 2 == 0 : f == 3 ? k < n / 2 : ch.choose(2) == 0;
        int key = Val<T>::norm(up ? lo++ : hi--);
        T t = Val<T>::make(key); LIB(d.o[0]->push(t)); Seq &s = d.m[0]; s.insert(s.begin() + TreeDrv<T, KC, Kind, A>::lower(s, key), key);
    }
    op("deep", f, n);
    d.verify(0, true);
    if (O().opmask & OG_COPY) { op("copy_assign", 1, 0); LIB(*d.o[1] = *(const X *)d.o[0]); d.m[1] = d.m[0]; removal(); d.verify(1, true); }
    if (O().opmask & OG_MOVE) { op("move_assign", 1, 0); LIB(*d.o[1] = dstruct::move(*d.o[0])); d.m[1] = d.m[0]; d.m[0].clear(); removal(); d.verify(0, true); d.verify(1, true); }
    for (int q = 0; q < 30; q++) { Seq &s = d.m[1].empty() ? d.m[0] : d.m[1]; if (s.empty()) break; int i = &s == &d.m[1]; size_t at = ch.choose(3) ? ch.choose((unsigned)s.size()) : ch.choose(2) ? 0 : s.size() - 1; if (ch.choose(2)) d.erase(i, at); else d.pop(i, s[at]); if (q % 10 == 9) d.verify(i, true); }
    int i = d.m[1].empty() ? 0 : 1; d.verify(i, true);
    if (ch.choose(2)) { op("clear", i); LIB(d.o[i]->clear()); d.m[i].clear(); d.ad[i].clear(); removal(); d.verify(i, true); }
}
// every insertion order of N keys, then every single removal, then (for each) a second one
template <class T, class KC, class Kind, class A, int N> static void perms(Chooser &ch) {
    TreeDrv<T, KC, Kind, A> d(ch, 1, 1000, OG_BASE);
    int n = N + O().depth_bonus;
    Seq left; for (int i = 1; i <= n; i++) left.push_back(i * 2);
    while (!left.empty()) { size_t k = ch.choose((unsigned)left.size()); d.insert(0, left[k]); left.erase(left.begin() + k); }
    if (ch.unseen()) d.verify(0, true);
    for (int q = 0; q < 2; q++) {
        if (d.m[0].empty()) break;
        size_t k = ch.choose((unsigned)d.m[0].size());
        if (ch.choose(2)) d.erase(0, k); else d.pop(0, d.m[0][k]);
        if (ch.unseen()) d.verify(0, true);
    }
}
int main(int argc, char **argv) {
    typedef VH_ALLOC A;
#ifndef VH_NO_WATCH
    watch_malloc();
#endif
#define BST(T, C) BstKind<T, C<T>::Cmp, A>
#define AVL(T, C) AvlKind<T, C<T>::Cmp, A>
#if PART(0)
    add("bst", "bst<int>/fill", 700, fill<int, KLess<int>, BST(int, KLess), A>);
    add("bst", "bst<int>", 2000, rnd<int, KLess<int>, BST(int, KLess), A>);
    add("bst", "bst<int>/deep", 8, deep<int, KLess<int>, BST(int, KLess), A>);
    add("bst", "bst<Tracked>/deep", 4, deep<Tracked, KLess<Tracked>, BST(Tracked, KLess), A>);
    add("bst", "bst<Tracked>/fill", 500, fill<Tracked, KLess<Tracked>, BST(Tracked, KLess), A>);
    add("bst", "bst<Tracked>", 1500, rnd<Tracked, KLess<Tracked>, BST(Tracked, KLess), A>);
    add("bst", "bst<int,greater>/up", 700, rnd<int, KGreater<int>, BST(int, KGreater), A>, VA_UP);
    add("bst-exhaustive", "bst<int>/exhaustive", 0, exh<int, KLess<int>, BST(int, KLess), A, 5>);
    add("bst-exhaustive", "bst<int>/permutations", 0, perms<int, KLess<int>, BST(int, KLess), A, 5>);
    add("bst-large", "bst<int>/large", 4, big<int, KLess<int>, BST(int, KLess), A>);
#endif
#if PART(1)
    add("bst", "bst<Tracked,custom>/down", 700, rnd<Tracked, KBit, BstKind<Tracked, BitCmp, A>, A>, VA_DOWN);
    add("bst", "bst<Big>", 400, rnd<Big, KLess<Big>, BST(Big, KLess), A>);
#ifndef VH_SMALL_ALIGN
    add("bst", "bst<longdouble>", 500, rnd<long double, KLess<long double>, BST(long double, KLess), A>);
#endif
    add("bst", "bst<Fat>", 200, rnd<Fat, KLess<Fat>, BST(Fat, KLess), A>);
    add("bst", "bst<Tiny>", 400, rnd<Tiny, KLess<Tiny>, BST(Tiny, KLess), A>);
    add("bst", "bst<ptr>", 400, rnd<const char *, KGreater<const char *>, BST(const char *, KGreater), A>);
    add("bst-exhaustive", "bst<Tracked>/exhaustive", 0, exh<Tracked, KLess<Tracked>, BST(Tracked, KLess), A, 5>);
#endif
#if PART(2)
    add("avl", "avl<int>/fill", 700, fill<int, KLess<int>, AVL(int, KLess), A>);
    add("avl", "avl<int>", 2000, rnd<int, KLess<int>, AVL(int, KLess), A>);
    add("avl", "avl<int>/deep", 6, deep<int, KLess<int>, AVL(int, KLess), A>);
    add("avl", "avl<Tracked>/fill", 500, fill<Tracked, KLess<Tracked>, AVL(Tracked, KLess), A>);
    add("avl", "avl<Tracked>", 1500, rnd<Tracked, KLess<Tracked>, AVL(Tracked, KLess), A>);
    add("avl", "avl<int,greater>/up", 700, rnd<int, KGreater<int>, AVL(int, KGreater), A>, VA_UP);
    add("avl-exhaustive", "avl<int>/exhaustive", 0, exh<int, KLess<int>, AVL(int, KLess), A, 5>);
    add("avl-exhaustive", "avl<int>/permutations", 0, perms<int, KLess<int>, AVL(int, KLess), A, 6>);
    add("avl-large", "avl<int>/large", 4, big<int, KLess<int>, AVL(int, KLess), A>);
#endif
#if PART(3)
    add("avl", "avl<Tracked,custom>/down", 700, rnd<Tracked, KBit, AvlKind<Tracked, BitCmp, A>, A>, VA_DOWN);
    add("avl", "avl<Big>", 400, rnd<Big, KLess<Big>, AVL(Big, KLess), A>);
#ifndef VH_SMALL_ALIGN
    add("avl", "avl<longdouble>", 500, rnd<long double, KLess<long double>, AVL(long double, KLess), A>);
#endif
    add("avl", "avl<Fat>", 200, rnd<Fat, KLess<Fat>, AVL(Fat, KLess), A>);
    add("avl", "avl<Tiny>", 400, rnd<Tiny, KLess<Tiny>, AVL(Tiny, KLess), A>);
    add("avl", "avl<ptr>", 400, rnd<const char *, KLess<const char *>, AVL(const char *, KLess), A>);
    add("avl-exhaustive", "avl<Tracked>/exhaustive", 0, exh<Tracked, KLess<Tracked>, AVL(Tracked, KLess), A, 5>);
    add("avl-large", "avl<Tracked>/large", 4, big<Tracked, KLess<Tracked>, AVL(Tracked, KLess), A>);
#endif
    return vh_main(argc, argv);
}
