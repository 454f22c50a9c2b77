// Operations on one object of every kind, C++11, included by two translation units of one program
// (VH_NS: the namespace of this unit). Everything observable goes into a log; nothing here depends on how it is built.
#include <dstruct.hpp>
#include <cstdint>
#include <cstring>
#include <new>
struct Sink { static void put(const char *what, long v); };       // defined in h_config.cpp
struct Own {                     // owns memory, counts its objects
    static thread_local long live;
    int *p;
    Own(int v = 0) : p(new int(v)) { live++; }
    Own(const Own &o) : p(new int(*o.p)) { live++; }
    Own &operator=(const Own &o) { if (this != &o) { int *q = new int(*o.p); delete p; p = q; } return *this; }
    ~Own() { delete p; live--; }
    bool operator<(const Own &o) const { return *p < *o.p; }
    bool operator>(const Own &o) const { return *p > *o.p; }
    bool operator==(const Own &o) const { return *p == *o.p; }
};
struct Def { int v; Def(int x = -5) : v(x) {} };                    // default constructible value
struct Lcg { uint64_t s; unsigned next(unsigned n) { s = s * 6364136223846793005ull + 1442695040888963407ull; return (unsigned)((s >> 33) % n); } };
typedef void (*StepFn)(void *obj, unsigned op, int arg);
struct KindOps { const char *name; unsigned size; void (*make)(void *); StepFn step; void (*copy)(void *, const void *); void (*move)(void *, void *); void (*kill)(void *); };
namespace VH_NS {
template <class T, class CMP = dstruct::less<T> > using AVL_ = dstruct::AVLTree<T, CMP, dstruct::Alloc>;
template <class T> struct V { static long of(const T &v) { return (long)v; } static T mk(int x) { return (T)x; } };
template <> struct V<Own> { static long of(const Own &v) { return *v.p; } static Own mk(int x) { return Own(x); } };
template <> struct V<Def> { static long of(const Def &v) { return v.v; } static Def mk(int x) { return Def(x); } };
template <> struct V<char> { static long of(char v) { return (unsigned char)v; } static char mk(int x) { return (char)('a' + x % 26); } };
template <class C> static void walk(const C &c) { long k = 0; for (auto it = c.begin(); it != c.end(); ++it, ++k) Sink::put("it", V<typename C::ValueType>::of(*it)); Sink::put("n", k); Sink::put("size", (long)c.size()); Sink::put("empty", c.empty()); }
template <class C> static void ends(C &c) { typedef V<typename C::ValueType> W; if (c.size()) { Sink::put("front", W::of(c.front())); Sink::put("back", W::of(c.back())); } }
template <class C> static void idx(C &c) { typedef V<typename C::ValueType> W; long n = (long)c.size(); for (long i = 0; i < n; i++) { Sink::put("[]", W::of(c[(int)i])); } if (n) Sink::put("[-1]", W::of(c[-1])); }
template <class C_> struct Cmn { typedef C_ C;
    static void make(void *p) { new (p) C; }
    static void copy(void *a, const void *b) { *(C *)a = *(const C *)b; }
    static void move(void *a, void *b) { *(C *)a = dstruct::move(*(C *)b); }
    static void kill(void *p) { ((C *)p)->~C(); }
};
template <class T> struct VecK : Cmn<dstruct::Vector<T> > { typedef dstruct::Vector<T> C;
    static void step(void *p, unsigned op, int x) { C &c = *(C *)p;
        if (op < 5) c.push_back(V<T>::mk(x)); else if (op < 8) { if (c.size()) c.pop_back(); } else if (op < 9) c.resize((unsigned)x % 9, V<T>::mk(x)); else c.clear();
        walk(c); ends(c); idx(c); } };
struct StrK : Cmn<dstruct::String> { typedef dstruct::String C;
    static void step(void *p, unsigned op, int x) { C &c = *(C *)p;
        if (op < 4) c.push_back(V<char>::mk(x)); else if (op < 6) c += (x & 1) ? C("ab\xe9") : c; else if (op < 8) { C t = c + "z"; t = "q" + t; c = t; } else c = x & 1 ? C("") : C("hello");
        if (c.size() > 200) c = C("x");
        Sink::put("len", (long)strlen(c.c_str())); for (const char *s = c.c_str(); *s; s++) Sink::put("c", (unsigned char)*s); Sink::put("size", (long)c.size());
        Sink::put("eq", c == "hello"); Sink::put("ne", c != C("hello")); } };
template <class L> struct PB { static void run(L &l) { l.pop_back(); } };
template <class T> struct PB<dstruct::SLinkedList<T> > { static void run(dstruct::SLinkedList<T> &l) { l.pop_front(); } };
template <class L> struct SeqK : Cmn<L> {
    static void step(void *p, unsigned op, int x) { L &c = *(L *)p; typedef typename L::ValueType T;
        if (op < 3) c.push_back(V<T>::mk(x)); else if (op < 5) c.push_front(V<T>::mk(x)); else if (op < 7) { if (c.size()) c.pop_front(); } else if (op < 9) { if (c.size()) PB<L>::run(c); } else c.clear();
        walk(c); ends(c); } };
template <class T> struct DeqK : Cmn<dstruct::Deque<T, 4> > { typedef dstruct::Deque<T, 4> C;
    static void step(void *p, unsigned op, int x) { SeqK<C>::step(p, op, x); idx(*(C *)p); } };
template <class T> struct QueK : Cmn<dstruct::Queue<T> > { typedef dstruct::Queue<T> C;
    static void step(void *p, unsigned op, int x) { C &c = *(C *)p; if (op < 6) c.push(V<T>::mk(x)); else if (c.size()) c.pop(); ends(c); Sink::put("size", (long)c.size()); } };
template <class T> struct StaK : Cmn<dstruct::Stack<T> > { typedef dstruct::Stack<T> C;
    static void step(void *p, unsigned op, int x) { C &c = *(C *)p; if (op < 6) c.push(V<T>::mk(x)); else if (c.size()) c.pop(); if (c.size()) Sink::put("top", V<T>::of(c.top())); Sink::put("size", (long)c.size()); } };
template <class C> struct XstK : Cmn<C> {
    static void step(void *p, unsigned op, int x) { C &c = *(C *)p; if (op < 6) c.push(x % 7); else if (!c.empty()) c.pop(); if (!c.empty()) { Sink::put("top", c.top()); Sink::put("x", c.getXValue()); } Sink::put("empty", c.empty()); } };
template <class C> struct HeaK : Cmn<C> { typedef typename C::ValueType T;
    static void step(void *p, unsigned op, int x) { C &c = *(C *)p; if (op < 6) c.push(V<T>::mk(x % 40)); else if (op < 9) { if (c.size()) c.pop(); }
        if (c.size()) Sink::put("top", V<T>::of(c.top())); walk(c);
        if (op == 8) { int a[9]; for (int i = 0; i < 9; i++) a[i] = (x * (i + 3)) % 23; dstruct::Heap<int, dstruct::greater<int> >::sort(a, a + 9); for (int i = 0; i < 9; i++) Sink::put("s", a[i]); } } };
template <class C, bool AVL> struct TreK : Cmn<C> { typedef typename C::ValueType T;
    struct Cb { void operator()(const T &v) { Sink::put("t", V<T>::of(v)); } void operator()(const dstruct::AVLData_<T> &n) { (*this)(n.val); } };
    static void step(void *p, unsigned op, int x) { C &c = *(C *)p; T v = V<T>::mk(x % 31); bool has = c.find(v) != c.end(); Sink::put("has", has);
        if (op < 6) { if (!AVL || !has) c.push(v); } else if (op < 9) c.pop(v); else if (x % 8 == 0) c.clear(); else if (has) c.erase(c.find(v));
        walk(c); for (int o = 0; o < 3; o++) { typename C::TraversalType tt = (typename C::TraversalType)o; Cb cb; c.traversal(cb, tt); } } };
struct MapK : Cmn<dstruct::Map<int, Def> > { typedef dstruct::Map<int, Def> C;
    static void step(void *p, unsigned op, int x) { C &c = *(C *)p; int k = x % 23;
        if (op < 5) c[k] = Def(x); else if (op < 6) Sink::put("get", c[k].v); else if (op < 8) c.pop(k); else if (op < 9) { auto it = c.find(k); Sink::put("found", it != c.end()); if (it != c.end()) c.erase(it); } else if (x % 8 == 0) c.clear();
        for (auto it = c.begin(); it != c.end(); it++) { Sink::put("k", it->key); Sink::put("v", it->value.v); } Sink::put("size", (long)c.size()); } };
struct UfK { typedef dstruct::UFSet C;
    static void make(void *p) { new (p) C(12); } static void copy(void *a, const void *b) { *(C *)a = *(const C *)b; } static void move(void *a, void *b) { C t(*(C *)b); *(C *)a = dstruct::move(t); } static void kill(void *p) { ((C *)p)->~C(); }
    static void step(void *p, unsigned op, int x) { C &c = *(C *)p; int a = x % 12, b = x / 12 % 12; if (op < 5) c.connect(a, b); Sink::put("conn", c.connected(a, b)); Sink::put("count", (long)c.count()); for (int i = 0; i < 12; i++) { int r = i; Sink::put("root", c.find(r) == c.find(c.find(r))); } } };
struct SmaK { typedef dstruct::smemory::Vector<int> A; typedef dstruct::smemory::DLinkedList<int> B; struct C { A a; B b; };   // two containers sharing the static pool
    static void make(void *p) { new (p) C; } static void copy(void *a, const void *b) { ((C *)a)->a = ((const C *)b)->a; ((C *)a)->b = ((const C *)b)->b; } static void move(void *a, void *b) { ((C *)a)->a = dstruct::move(((C *)b)->a); ((C *)a)->b = dstruct::move(((C *)b)->b); } static void kill(void *p) { ((C *)p)->~C(); }
    static void step(void *p, unsigned op, int x) { C &c = *(C *)p; if (op < 6) { if (c.a.size() < 40) { c.a.push_back(x); c.b.push_front(x + 1); } } else if (c.a.size()) { c.a.pop_back(); c.b.pop_front(); } walk(c.a); walk(c.b); Sink::put("free", dstruct::smemory::SMA::free_mem_size()); if (op == 8) dstruct::smemory::SMA::memory_merge(); } };
// raw static allocator: eight slots of a pool of its own; the layout is observed as offsets
struct RawK { typedef dstruct::StaticMemAllocator<2048, 64> A; struct C { char *p[8]; int n[8]; };
    static void make(void *q) { memset(q, 0, sizeof(C)); } static void kill(void *q) { C &c = *(C *)q; for (int i = 0; i < 8; i++) if (c.p[i]) A::deallocate(c.p[i], c.n[i]); memset(q, 0, sizeof(C)); }
    static void copy(void *, const void *) {} static void move(void *a, void *b) { C t; memcpy(&t, a, sizeof t); memcpy(a, b, sizeof t); memcpy(b, &t, sizeof t); }
    static void step(void *q, unsigned op, int x) { C &c = *(C *)q; int i = x % 8; static const int sizes[] = { 1, 8, 20, 64, 65, 100, 200, 333 };
        if (op < 8) { if (c.p[i]) { Sink::put("freed", A::deallocate(c.p[i], c.n[i])); c.p[i] = 0; } else { c.n[i] = sizes[x / 8 % 8]; c.p[i] = (char *)A::allocate(c.n[i]); Sink::put("got", c.p[i] != 0); if (c.p[i]) { Sink::put("align", (long)((uintptr_t)c.p[i] % 8)); memset(c.p[i], i, (size_t)c.n[i]); } } }
        else { A::memory_merge(); Sink::put("max", A::max_free_mblock_size()); }
        for (int k = 0; k < 8; k++) if (c.p[k]) { long s = 0; for (int b = 0; b < c.n[k]; b++) s += c.p[k][b]; Sink::put("sum", s); }
        Sink::put("free", A::free_mem_size()); } };

// ---- the rest of the interface: operations 10 to 15 of each kind
template <class C> static void back_walk(const C &c) { typedef V<typename C::ValueType> W; long k = (long)c.size(); for (auto it = c.end(); k > 0; k--) { if (k & 1) it--; else --it; Sink::put("rit", W::of(*it)); } }
struct Sum { long *s; int n; template <class T> void operator()(const T &v) { *s = (long)((unsigned long)*s * 31 + (unsigned long)V<T>::of(v) + (unsigned long)n++); } };
template <class C> static void algos(C &c, int x) { typedef typename C::ValueType T; const C &k = c; long s = 0; Sum f = { &s, 0 }; dstruct::algorithm::for_each(k.begin(), k.end(), f); Sink::put("sum", s);
    auto it = dstruct::algorithm::find(k.begin(), k.end(), V<T>::mk(x)); long p = 0; for (auto b = k.begin(); b != it; b++) p++; Sink::put("found-at", p); if (it != k.end()) Sink::put("found", V<T>::of(*it)); }
template <class C> static void values(C &c) { C u(c); walk(u); C w(dstruct::move(u)); walk(w); walk(u); dstruct::swap(u, w); walk(u); walk(w); c = u; c = c; w = dstruct::move(c); c = dstruct::move(w); walk(c); }
template <class C> static void rewrite(C &c, int x) { typedef typename C::ValueType T; for (auto it = c.begin(); it != c.end(); it++) { *it = V<T>::mk(x % 50); x += 7; } }
template <class C> static void jumps(const C &c, int x) { typedef V<typename C::ValueType> W; int n = (int)c.size(); if (!n) return; x %= n; auto b = c.begin(), e = c.end(); Sink::put("b+", W::of(*(b + x))); Sink::put("e-", W::of(*(e - (x + 1)))); Sink::put("->", b.operator->() == &*b); Sink::put("eq", (b + n == e) + 2 * (e - n == b) + 4 * (b != e)); }
template <class T> static void ext(VecK<T> *, dstruct::Vector<T> &c, unsigned op, int x) { typedef dstruct::Vector<T> C;
    switch (op) { case 10: { C t((size_t)(x % 7 + 1), V<T>::mk(x)); walk(t); c = t; values(c); break; } case 11: c.resize(c.size() + (unsigned)x % 5); Sink::put("cap", c.capacity() >= c.size()); c.push(V<T>::mk(x)); c.push(c[0]); c.pop(); break;
    case 12: rewrite(c, x); if (c.size()) { c[-1] = V<T>::mk(x); c[0] = c[-1]; } break; case 13: back_walk(c); jumps(c, x); { const C &k = c; idx(k); Sink::put("diff", k.end() - k.begin()); Sink::put("distance", dstruct::distance(k.begin(), k.end())); } break; case 14: algos(c, x); break; default: values(c); c.resize(0); c.push_back(V<T>::mk(x)); } }
static void ext(StrK *, dstruct::String &c, unsigned op, int x) { typedef dstruct::String C;
    switch (op) { case 10: values(c); break; case 11: c += "xyz"; c = "plain"; c += c; ends(c); break; case 12: rewrite(c, x); if (c.size()) c[0] = 'A'; break;
    case 13: back_walk(c); { const C &k = c; for (int i = 0; i < (int)k.size(); i++) Sink::put("[]", V<char>::of(k[i])); Sink::put("cap", k.capacity() >= k.size()); ends(k); } break; case 14: algos(c, x); break;
    default: { C d("hello"); Sink::put("rel", (c == d) + 2 * (c != d) + 4 * ("hello" == c) + 8 * ("hello" != c) + 16 * (c == "hello") + 32 * (c != "hello") + 64 * (c == c)); C e = c + d; C f = "a" + e; C g = f + "b"; Sink::put("g", (long)g.size()); c.clear(); walk(c); } } }
template <class L> struct Rev { static void run(const L &l) { back_walk(l); } };
template <class T> struct Rev<dstruct::SLinkedList<T> > { static void run(const dstruct::SLinkedList<T> &) {} };
template <class L> static void ext(SeqK<L> *, L &c, unsigned op, int x) { typedef typename L::ValueType T;
    switch (op) { case 10: case 11: values(c); break; case 12: rewrite(c, x); break; case 13: Rev<L>::run(c); break; case 14: algos(c, x); break; default: c.push(V<T>::mk(x)); ends(c); c.pop(); } walk(c); }
template <class T> static void ext(DeqK<T> *, dstruct::Deque<T, 4> &c, unsigned op, int x) { typedef dstruct::Deque<T, 4> C;
    switch (op) { case 10: values(c); break; case 11: case 12: case 13: back_walk(c); jumps(c, x); { const C &k = c; idx(k); Sink::put("cap", k.capacity() >= k.size()); auto it = k.begin(); auto jt = k.end(); jt = it; it = dstruct::move(jt); Sink::put("it", it == k.begin()); } break; case 14: algos(c, x); break; default: c.push(V<T>::mk(x)); ends(c); c.pop(); } walk(c); }
template <class K, class T> static void qext(dstruct::Queue<T> &c, unsigned op, int x, K *) { if (op < 12) values(c); else if (op < 13) { if (c.size()) Sink::put("[]", V<T>::of(c[x % (int)c.size()])); } else algos(c, x); walk(c); }
template <class T> static void ext(QueK<T> *k, dstruct::Queue<T> &c, unsigned op, int x) { qext(c, op, x, k); dstruct::adapter::Queue<T, dstruct::SLinkedList<T> > a; dstruct::adapter::Queue<T, dstruct::DLinkedList<T> > b; for (int i = 0; i < 5; i++) { a.push(V<T>::mk(x + i)); b.push(V<T>::mk(x - i)); } a.pop(); b.pop(); walk(a); walk(b); ends(a); ends(b); }
template <class T> static void ext(StaK<T> *, dstruct::Stack<T> &c, unsigned op, int x) { if (op < 12) values(c); else if (op < 13) { if (x % 4 == 0) c.clear(); } else algos(c, x); walk(c); dstruct::adapter::Stack<T, dstruct::DLinkedList<T> > a; dstruct::adapter::Stack<T, dstruct::Deque<T, 2> > b; for (int i = 0; i < 5; i++) { a.push(V<T>::mk(x + i)); b.push(V<T>::mk(x - i)); } a.pop(); b.pop(); walk(a); walk(b); Sink::put("top", V<T>::of(a.top())); Sink::put("top", V<T>::of(b.top())); }
template <class C> static void ext(XstK<C> *, C &c, unsigned op, int x) { if (op < 13) { C u(c); C w(dstruct::move(u)); u = w; dstruct::swap(u, w); c = dstruct::move(w); } else if (x % 3 == 0) c.clear(); long n = 0; for (auto it = static_cast<const C &>(c).begin(); it != static_cast<const C &>(c).end(); it++, n++) Sink::put("it", (long)*it); Sink::put("n", n); }
template <class C> static void ext(HeaK<C> *, C &c, unsigned op, int x) { typedef typename C::ValueType T;
    switch (op) { case 10: case 11: values(c); break; case 12: for (int i = 1; i <= (int)c.size(); i++) Sink::put("[]", V<T>::of(c[i])); Sink::put("cap", c.capacity() >= c.size()); break;
    case 13: { T a[11]; for (int i = 0; i < 11; i++) a[i] = V<T>::mk((x * (i + 5)) % 29); C b = C::build(a, a + x % 12); while (b.size()) { Sink::put("b", V<T>::of(b.top())); b.pop(); } C d(a, a + 11); walk(d); c = d; break; }
    case 14: { T a[11]; for (int i = 0; i < 11; i++) a[i] = V<T>::mk((x * (i + 5)) % 29); C::sort(a, a + x % 12); for (int i = 0; i < 11; i++) Sink::put("s", V<T>::of(a[i])); break; } default: algos(c, x % 40); } }
template <class X> static long tree_val(const X &v) { return V<X>::of(v); }
template <class C, bool B> struct Hgt { static void run(const C &c) { Sink::put("height", c.height()); } };
template <class C> struct Hgt<C, false> { static void run(const C &) {} };
template <class C, bool B> static void ext(TreK<C, B> *, C &c, unsigned op, int x) { typedef typename C::ValueType T; typedef typename C::TraversalType TT;
    switch (op) { case 10: { C u(c); C w(dstruct::move(u)); u = w; c = dstruct::move(u); walk(w); walk(u); break; } case 11: for (int o = 0; o < 3; o++) { TT t = (TT)o; for (auto it = c.begin(t); it != c.end(t); it++) Sink::put("o", V<T>::of(*it)); } break;
    case 12: { auto it = c.begin(); for (int i = x % 5; i > 0 && it != c.end(); i--) ++it; if (it != c.end()) { auto n = c.erase(it); Sink::put("next", n == c.end() ? -1 : V<T>::of(*n)); } break; }
    case 13: Hgt<C, B>::run(c); Sink::put("cap", c.capacity() >= c.size()); break; case 14: { long n = 0; for (auto it = c.begin(); it != c.end();) { if (n++ % 3 == 0) it = c.erase(it); else it++; } break; }
    default: for (int i = 0; i < 20; i++) { T v = V<T>::mk((x + i * 3) % 31); if (c.find(v) == c.end()) c.push(v); } } walk(c); }
static void ext(MapK *, dstruct::Map<int, Def> &c, unsigned op, int x) { typedef dstruct::Map<int, Def> C;
    switch (op) { case 10: { C u(c); C w(dstruct::move(u)); u = w; c = dstruct::move(u); Sink::put("w", (long)w.size()); break; } case 11: if (c.find(x) == c.end()) { C::KeyValueType kv = { x, Def(x + 1) }; c.push(kv); } break; case 12: { const C &k = c; for (auto it = k.begin(); it != k.end(); ++it) Sink::put("[]", k[it->key].v); break; }
    case 13: Sink::put("cap", c.capacity() >= c.size()); Sink::put("empty", c.empty()); break; default: { long n = 0; for (auto it = c.begin(); it != c.end();) { if (n++ % 3 == 0) it = c.erase(it); else it++; } } } }
static void ext(UfK *, dstruct::UFSet &c, unsigned op, int x) { if (op < 12) { dstruct::UFSet u(c); u.connect(x % 12, x / 12 % 12); dstruct::UFSet w(dstruct::move(u)); Sink::put("w", (long)w.count()); c = w; } else if (op < 14) { int a = x % 12, b = x / 12 % 12; int r = c.find(a), s = c.find(b); if (r != s) c.union_set(r, s); } Sink::put("n", (long)c.size()); Sink::put("empty", c.empty()); Sink::put("cap", c.capacity() >= c.size()); }
static void ext(SmaK *, SmaK::C &, unsigned, int) {}
static void ext(RawK *, RawK::C &, unsigned, int) {}
template <class K> struct Full { static void step(void *p, unsigned op, int x) { if (op < 10) K::step(p, op, x); else ext((K *)0, *(typename K::C *)p, op, x); } };
// things without a state of their own: arrays, embedded lists and trees, rotations, comparators, utilities; the state is an array of links
struct FreeK { struct C { dstruct::Array<int, 9> a; };
    static void make(void *p) { new (p) C{ dstruct::Array<int, 9>(3) }; } static void copy(void *a, const void *b) { *(C *)a = *(const C *)b; } static void move(void *a, void *b) { *(C *)a = dstruct::move(*(C *)b); } static void kill(void *p) { ((C *)p)->~C(); }
    struct Cb { void operator()(dstruct::tree::BinaryTreeLink_ *l) { Sink::put("l", dstruct::EBinaryTreeNode<int>::to_node(l)->data); } };
    typedef dstruct::tree::BinaryTreeLink_ BL; typedef dstruct::EBinaryTreeNode<int> TN;
    static void tree(int x) { namespace t = dstruct::tree; TN n[12]; for (int i = 0; i < 12; i++) n[i].data = i; for (int i = 1; i < 12; i++) { BL *c = TN::to_link(&n[0]); for (;;) { BL *&s = ((x >> (i % 9)) ^ TN::to_node(c)->data * i) & 1 ? c->left : c->right; if (!s) { s = TN::to_link(&n[i]); s->parent = c; break; } c = s; } x = (x * 5 + 1) % 9973; }
        BL *r = TN::to_link(&n[0]); Cb cb; Sink::put("h", t::height(r)); t::preorder_traversal(r, cb); t::inorder_traversal(r, cb); t::postorder_traversal(r, cb);
        for (BL *l = r; l; l = t::next_preorder(l)) cb(l); BL *f = r; while (f->left) f = f->left; for (BL *l = f; l; l = t::next_inorder(l)) cb(l); f = r; while (f->left || f->right) f = f->left ? f->left : f->right; for (BL *l = f; l; l = t::next_postorder(l)) cb(l);
        if (r->left) { r = t::right_rotate(r); t::preorder_traversal(r, cb); } if (r->right) { r = t::left_rotate(r); t::inorder_traversal(r, cb); t::preorder_traversal(r, cb); } }
    template <class N> static void list(int x) { typedef typename N::LinkType L; N h, n[6]; N::init(&h); Sink::put("e", N::empty(&h)); for (int i = 0; i < 6; i++) { n[i].data = i; N::init(&n[i]); if ((x >> i) & 1 && i) N::add(&n[i - 1], &n[i]); else N::add(&h, &n[i]); } for (L *l = N::to_link(&h)->next; l != N::to_link(&h); l = l->next) Sink::put("l", N::to_node(l)->data); N *f = N::to_node(N::to_link(&h)->next); N::del(&h, f); for (L *l = N::to_link(&h)->next; l != N::to_link(&h); l = l->next) Sink::put("l", N::to_node(l)->data); Sink::put("e", N::empty(&h)); }
    static void step(void *p, unsigned op, int x) { C &c = *(C *)p; c.a[(int)op % 9] = x; c.a[-(int)(op % 9) - 1] += 2;
        switch (op % 5) { case 0: tree(x); break; case 1: list<dstruct::EListNode<int> >(x); break; case 2: list<dstruct::EListNode<int, dstruct::DoublyLink_> >(x); break;
        case 3: { walk(c.a); back_walk(c.a); jumps(c.a, x); algos(c.a, x); const dstruct::Array<int, 9> &k = c.a; idx(k); ends(c.a); Sink::put("cap", (long)k.capacity()); dstruct::Array<int, 9> u(c.a), w(dstruct::move(u)); u = w; dstruct::swap(u, w); walk(u); Own one(x); dstruct::Array<Own, 3> o(one), q(o); q = dstruct::move(o); o = q; Sink::put("o", *o[1].p); break; }
        default: { int a = x % 31 - 15, b = x / 31 - 15; Sink::put("max", dstruct::max(a, b)); Sink::put("abs", dstruct::abs(a)); Sink::put("lt", dstruct::less<int>()(a, b) + 2 * dstruct::greater<int>()(a, b)); int r[2]; int *u = a & 1 ? r : 0, *w = b & 1 ? r + 1 : 0; Sink::put("plt", dstruct::less<int *>()(u, w) + 2 * dstruct::greater<int *>()(u, w)); dstruct::swap(a, b); Sink::put("swap", a); Own i(a), j(b); dstruct::swap(i, j); Sink::put("swap", *i.p); long s = 0; Sum f = { &s, 0 }; int v[5] = { a, b, a, 1, 2 }; dstruct::algorithm::for_each(&v[0], &v[5], f); Sink::put("sum", s); Sink::put("find", (long)(dstruct::algorithm::find(&v[0], &v[5], b) - v)); Sink::put("isp", dstruct::IsPointer<int>::value + 2 * dstruct::IsPointer<int *>::value); } } } };
static void ext(FreeK *, FreeK::C &, unsigned, int) {}
template <class K> static KindOps ops(const char *n, unsigned sz) { KindOps k = { n, sz, K::make, Full<K>::step, K::copy, K::move, K::kill }; return k; }
static const int NK = 23, FIRST_SMA = 21;   // the kinds before FIRST_SMA may be used by several threads
static KindOps kind(int i) {
    using namespace dstruct;
    switch (i) {
    case 0: return ops<VecK<int> >("Vector<int>", sizeof(VecK<int>::C));
    case 1: return ops<VecK<Own> >("Vector<Own>", sizeof(VecK<Own>::C));
    case 2: return ops<StrK>("String", sizeof(StrK::C));
    case 3: return ops<SeqK<SLinkedList<Own> > >("SLinkedList<Own>", sizeof(SLinkedList<Own>));
    case 4: return ops<SeqK<DLinkedList<int> > >("DLinkedList<int>", sizeof(DLinkedList<int>));
    case 5: return ops<SeqK<DLinkedList<Own> > >("DLinkedList<Own>", sizeof(DLinkedList<Own>));
    case 6: return ops<DeqK<int> >("Deque<int,4>", sizeof(DeqK<int>::C));
    case 7: return ops<DeqK<Own> >("Deque<Own,4>", sizeof(DeqK<Own>::C));
    case 8: return ops<QueK<Own> >("Queue<Own>", sizeof(QueK<Own>::C));
    case 9: return ops<StaK<Own> >("Stack<Own>", sizeof(StaK<Own>::C));
    case 10: return ops<XstK<MinStack<int> > >("MinStack<int>", sizeof(MinStack<int>));
    case 11: return ops<XstK<MaxStack<int> > >("MaxStack<int>", sizeof(MaxStack<int>));
    case 12: return ops<HeaK<MinHeap<Own> > >("MinHeap<Own>", sizeof(MinHeap<Own>));
    case 13: return ops<HeaK<PriorityQueue<int, greater<int> > > >("PriorityQueue<int,greater>", sizeof(PriorityQueue<int, greater<int> >));
    case 14: return ops<TreK<BSTree<int>, false> >("BSTree<int>", sizeof(BSTree<int>));
    case 15: return ops<TreK<BSTree<Own>, false> >("BSTree<Own>", sizeof(BSTree<Own>));
    case 16: return ops<TreK<AVL_<int>, true> >("AVLTree<int>", sizeof(AVL_<int>));
    case 17: return ops<TreK<AVL_<Own, greater<Own> >, true> >("AVLTree<Own,greater>", sizeof(AVL_<Own, greater<Own> >));
    case 18: return ops<MapK>("Map<int,Def>", sizeof(MapK::C));
    case 19: return ops<FreeK>("array-embedded-utils", sizeof(FreeK::C));
    case 20: return ops<UfK>("UFSet", sizeof(UfK::C));
    case 21: return ops<SmaK>("smemory", sizeof(SmaK::C));
    default: return ops<RawK>("StaticMemAllocator", sizeof(RawK::C));
    }
}
// objects of static storage duration: filled before main, destroyed after it
struct Statics { dstruct::Vector<int> v; dstruct::DLinkedList<Own> l; dstruct::Deque<int, 4> d; AVL_<int> a; dstruct::Map<int, Def> m; dstruct::String s; dstruct::smemory::Vector<int> sv; dstruct::MinHeap<int> h;
    Statics() { for (int i = 0; i < 20; i++) { v.push_back(i); l.push_front(Own(i)); d.push_front(i); a.push(i * 7 % 20); m[i] = Def(i); s.push_back((char)('a' + i)); sv.push_back(i); h.push(20 - i); } }
    void look() { walk(v); walk(l); walk(d); walk(a); walk(sv); walk(h); Sink::put("s", (long)strlen(s.c_str())); Sink::put("m", (long)m.size()); Sink::put("m7", m[7].v); d.push_back(1); l.push_back(Own(3)); m[99] = Def(4); } };
static Statics &statics() { static Statics later; return later; }
static Statics early;
} // namespace
