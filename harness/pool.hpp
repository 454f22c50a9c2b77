// A small pool of container objects of one type, each paired with its reference
// model, plus the operations every value-like container shares.
#pragma once
#include "vh.hpp"
#include <dstruct.hpp>

// a driver's configurations can be split over several binaries to compile in parallel
#ifndef VH_PART
#define VH_PART -1
#endif
#define PART(n) (VH_PART < 0 || VH_PART == (n))

#ifndef VH_ALLOC
#define VH_ALLOC vh::VA
#endif

namespace vh {

// Static-memory mode: everything a case takes from the default pool is back when it ends.
#ifdef ENABLE_SMA
typedef dstruct::port::DefaultSMA PoolSMA;
static int g_pool_free0;
static void pool_begin() { PoolSMA::memory_merge(); g_pool_free0 = PoolSMA::free_mem_size(); }
static void pool_end() {
    int f = PoolSMA::free_mem_size();
    G().checks++;
    if (f != g_pool_free0) soft(C_LEAK, "pool-leak", "%d bytes of the static pool are not returned after everything was destroyed", g_pool_free0 - f);
    LIB(PoolSMA::dump());                  // verifies the allocator's own accounting
    if (g_pool_free0 == 1024 * 1024) { PoolSMA::memory_merge(); if (PoolSMA::max_free_mblock_size() != 1024 * 1024) soft(C_LEAK, "pool-leak", "the static pool is not whole after everything was returned and merged"); }
}
struct PoolHooks { PoolHooks() { g_case_begin_hook = pool_begin; g_residue_hook = pool_end; } };
static PoolHooks g_pool_hooks;
#endif

template <class T> struct IsTracked { enum { value = 0 }; };
template <> struct IsTracked<Tracked> { enum { value = 1 }; };
template <> struct IsTracked<Fat> { enum { value = 1 }; };
template <> struct IsTracked<Tiny> { enum { value = 1 }; };

typedef Vec<int> Seq;

// containers as elements
typedef dstruct::BasicString<char, VH_ALLOC> Str;
typedef dstruct::Vector<int, VH_ALLOC> IntVec;
template <> struct Val<Str> {
    static Str make(int k) {
        char b[64]; int n = snprintf(b, sizeof b, "%d|", k);
        int pad = (k % 3 == 0) ? (k % 29 + 29) % 29 : 0;
        for (int i = 0; i < pad; i++) b[n++] = 'p';
        b[n] = 0; return Str(b);
    }
    static int key(const Str &v) {
        int k = atoi(v.c_str()); const char *c = strchr(v.c_str(), '|'); if (!c) return -888888;
        int pad = (k % 3 == 0) ? (k % 29 + 29) % 29 : 0; int n = (int)(c + 1 - v.c_str()) + pad;
        if ((int)v.size() != n || (int)strlen(v.c_str()) != n) return -888887;
        return k;
    }
    static int norm(int k) { return k; }
    static const char *name() { return "String"; }
};
template <> struct Val<IntVec> {
    static IntVec make(int k) { IntVec v; int n = 1 + (k % 5 + 5) % 5; for (int i = 0; i < n; i++) v.push_back(k + i); return v; }
    static int key(const IntVec &v) {
        if (v.empty()) return -999999;
        int k = v[0]; if ((int)v.size() != 1 + (k % 5 + 5) % 5) return -999998;
        for (int i = 0; i < (int)v.size(); i++) if (v[i] != k + i) return -999997;
        return k;
    }
    static int norm(int k) { return k; }
    static const char *name() { return "Vector"; }
};

inline uint64_t hash_seq(const Seq &m) {
    // abstract state: relative order pattern is too coarse, the contents too fine: hash the
    // ranks of the values (values are unique per case, so this identifies the shape)
    uint64_t h = m.size() * 0x9E3779B97F4A7C15ull + 5;
    if (m.size() <= 24) {
        for (size_t i = 0; i < m.size(); i++) { unsigned r = 0; for (size_t j = 0; j < m.size(); j++) r += m[j] < m[i]; h = mix(h, r); }
    }
    return h;
}

template <class Obj, class Model, class D>
struct Pool {
    enum { MAXK = 4 };
    int K;
    Obj *o[MAXK];
    Model m[MAXK];
    Chooser &ch;
    int counter;
    bool pending;            // an object which is not in the pool holds elements

    Pool(Chooser &c, int k) : K(k), ch(c), counter(1), pending(false) { for (int i = 0; i < MAXK; i++) o[i] = 0; }
    D &self() { return *static_cast<D *>(this); }

    void *mem() { return malloc(sizeof(Obj)); }
    void kill(int i) {
        if (!o[i]) return;
        Obj *p = o[i]; o[i] = 0;
        LIB(p->~Obj());
        memset((void *)p, 0xEE, sizeof(Obj));
        free(p);
    }
    void create(int i) { void *p = mem(); Obj *r = 0; LIB(r = self().fresh(p)); o[i] = r; m[i] = self().fresh_model(); }
    void create_all() { for (int i = 0; i < K; i++) create(i); }
    ~Pool() { for (int i = 0; i < MAXK; i++) if (o[i]) kill(i); }

    // operations on whole objects; returns the index of the object which changed
    void copy_op(int i) {
        int j = (int)ch.choose(K);
        int kind = (int)ch.choose(2);
        if (kind == 0) {                       // copy assignment, possibly from itself
            op("copy_assign", i, j);
            LIB(*o[i] = *(const Obj *)o[j]);
            m[i] = m[j];
        } else {                               // copy construction
            op("copy_construct", i, j);
            Obj *n = (Obj *)mem();
            const Obj &src = *o[j];
            LIB(new ((void *)n) Obj(src));
            Model nm = m[j];
            kill(i);
            o[i] = n; m[i] = nm;
        }
        removal();
        self().verify(i, true);
        if (j != i && o[j]) self().verify(j, true);
    }
    void move_op(int i) {
        int j = (int)ch.choose(K);
        int kind = (int)ch.choose(2);
        if (kind == 0) {
            op("move_assign", i, j);
            LIB(*o[i] = dstruct::move(*o[j]));
            if (i != j) { m[i] = m[j]; self().moved_from(j); }
        } else {
            op("move_construct", i, j);
            Obj *n = (Obj *)mem();
            LIB(new ((void *)n) Obj(dstruct::move(*o[j])));
            Model nm = m[j];
            self().moved_from(j);
            pending = true;
            self().verify(j, true);            // the source stays usable until it dies
            pending = false;
            kill(i);
            o[i] = n; m[i] = nm;
        }
        removal();
        self().verify(i, true);
        if (j != i && o[j]) self().verify(j, true);
    }
    void moved_from(int j) { m[j] = self().fresh_model(); }
    void recreate_op(int i) {
        op("recreate", i);
        kill(i); create(i); removal();
        self().verify(i, true);
    }
    int val() { int x = counter++; return x % 9 == 4 ? odd_value((unsigned)x / 9) : x; }
    // kind of the next operation; in long histories whole-object operations are rare, so that sizes build up
    unsigned roll(size_t maxsize) {
        unsigned r = ch.choose(100);
        if (maxsize > 200 && (r < 16 || r >= 86) && ch.choose(60)) r = 50;
        return r;
    }
    // number of element objects alive follows the contents: placeholders per container
    // are allowed between lo and hi, plus `per` extra copies per element
    void check_live(size_t lo, size_t hi, size_t per = 0) {
        if (pending) return;
        size_t n = 0, k = 0;
        for (int i = 0; i < MAXK; i++) if (o[i]) { n += self().model_size(i); k++; }
        long live = TS().live;
        EXPECT(C_LIFE, "live-count", live >= (long)(n + lo * k) && live <= (long)(n * (1 + per) + hi * k),
               "%ld element objects alive while the containers hold %zu elements", live, n);
    }
    size_t model_size(int i) { return m[i].size(); }
};

// Phases make histories grow and shrink instead of hovering around one size.
struct Phase {
    int grow, left;
    Phase() : grow(0), left(0) {}
    bool want_grow(Chooser &ch, size_t size, size_t maxsize) {
        if (left <= 0) {
            unsigned r = ch.choose(8);
            grow = r < 3 ? 85 : r < 6 ? 15 : 50;
            left = 1 + (int)ch.choose((unsigned)maxsize + 4) * 2;
        }
        left--;
        if (size >= maxsize) return false;
        return (int)ch.choose(100) < grow;
    }
};

} // namespace vh

namespace vh {
// walk [b, e) and compare with the model; bounded, so a cyclic structure is reported, not followed
template <class T, class It>
inline void walk(const char *what, It b, const It &e, const Seq &m, bool post) {
    size_t n = 0;
    if (post) { for (It it = b; it != e; n++) {
        EXPECT(C_MODEL, what, n < m.size(), "iteration yields more than the %zu elements", m.size());
        EXPECT_EQ(C_MODEL, what, Val<T>::key(*it), m[n]);
        It was = it, old = it++;
        EXPECT(C_MODEL, what, old == was && !(old != was), "it++ does not return the position before the step");
        EXPECT_EQ(C_MODEL, what, Val<T>::key(*old), m[n]);
    } } else { for (It it = b; !(it == e); n++) {
        EXPECT(C_MODEL, what, n < m.size(), "iteration yields more than the %zu elements", m.size());
        EXPECT_EQ(C_MODEL, what, Val<T>::key(*it.operator->()), m[n]);
        const It *r = &++it;
        EXPECT(C_MODEL, what, r == &it, "++it does not return the iterator itself");
    } }
    EXPECT_EQ(C_MODEL, what, n, m.size());
}
template <class T, class It>
inline void walk_back(const char *what, const It &b, const It &e, const Seq &m, bool post) {
    size_t n = m.size();
    It it = e;
    while (it != b) {
        EXPECT(C_MODEL, what, n > 0, "backward iteration yields more than the %zu elements", m.size());
        if (post) {
            It was = it, old = it--;
            EXPECT(C_MODEL, what, old == was && !(old != was), "it-- does not return the position before the step");
            if (n < m.size()) EXPECT_EQ(C_MODEL, what, Val<T>::key(*old), m[n]);
        } else {
            It &r = --it;
            EXPECT(C_MODEL, what, &r == &it, "--it does not return the iterator itself");
        }
        n--;
        EXPECT_EQ(C_MODEL, what, Val<T>::key(*it), m[n]);
    }
    EXPECT_EQ(C_MODEL, what, n, 0);
}
template <class T> struct EachCheck {
    const Seq *m; size_t *n;
    void operator()(const T &v) {
        EXPECT(C_MODEL, "for_each", *n < m->size(), "for_each visits more than %zu elements", m->size());
        EXPECT_EQ(C_MODEL, "for_each", Val<T>::key(v), (*m)[*n]);
        ++*n;
    }
};
template <class T> struct FindCheck { template <class It> static void check(const It &b, const It &e, const Seq &m, int probe) {
    size_t want = 0;
    int pk = Val<T>::norm(probe);
    while (want < m.size() && m[want] != pk) want++;
    T pv = Val<T>::make(probe);
    It r = dstruct::algorithm::find(b, e, pv);
    if (want == m.size()) EXPECT(C_MODEL, "find", r == e, "find of an absent value does not return end");
    else {
        EXPECT(C_MODEL, "find", r != e, "find of a present value returns end");
        EXPECT_EQ(C_MODEL, "find", Val<T>::key(*r), pk);
        size_t pos = 0; It it = b;
        for (; it != r && pos <= m.size(); it++) pos++;
        EXPECT_EQ(C_MODEL, "find", pos, want);
    }
} };
template <> struct FindCheck<IntVec> { template <class It> static void check(const It &, const It &, const Seq &, int) {} };
template <class T, class It>
inline void algo(const It &b, const It &e, const Seq &m, int probe) {
    size_t n = 0;
    EachCheck<T> cb = { &m, &n };
    dstruct::algorithm::for_each(b, e, cb);
    EXPECT_EQ(C_MODEL, "for_each", n, m.size());
    FindCheck<T>::check(b, e, m, probe);
}
} // namespace vh

