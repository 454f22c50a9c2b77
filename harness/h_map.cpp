// Map against an ordered dictionary model.
#include "pool.hpp"
using namespace vh;

template <class T> struct KLess { typedef dstruct::less<T> Cmp; static bool before(int a, int b) { return a < b; } };
template <class T> struct KGreater { typedef dstruct::greater<T> Cmp; static bool before(int a, int b) { return a > b; } };
struct ModCmp { bool operator()(const Tracked &a, const Tracked &b) const { return a.k % 10 < b.k % 10 || (a.k % 10 == b.k % 10 && a.k > b.k); } };
struct KMod { typedef ModCmp Cmp; static bool before(int a, int b) { return a % 10 < b % 10 || (a % 10 == b % 10 && a > b); } };

template <class V> struct DefVal { static int key() { return Val<V>::key(V()); } };
template <> struct DefVal<Str> { static int key() { return -888888; } };
template <> struct DefVal<IntVec> { static int key() { return -999999; } };
template <> struct DefVal<int> { static int key() { return 0; } };
template <> struct DefVal<Tracked> { static int key() { return -1; } };

struct KV { int k, v; bool operator==(const KV &o) const { return k == o.k && v == o.v; } };
typedef Vec<KV> Dict;

template <class K_, class V_, class KC, class A>
struct MapDrv : Pool<dstruct::Map<K_, V_, typename KC::Cmp, dstruct::AVLTree<dstruct::KeyValue<const K_, V_>, dstruct::KVCMPKey<dstruct::KeyValue<const K_, V_>, typename KC::Cmp>, A> >, Dict, MapDrv<K_, V_, KC, A> > {
    typedef dstruct::Map<K_, V_, typename KC::Cmp, dstruct::AVLTree<dstruct::KeyValue<const K_, V_>, dstruct::KVCMPKey<dstruct::KeyValue<const K_, V_>, typename KC::Cmp>, A> > M;
    typedef Pool<M, Dict, MapDrv<K_, V_, KC, A> > P;
    using P::o; using P::m; using P::ch; using P::K;
    size_t maxsize; unsigned groups; Phase ph[4]; unsigned range;
    struct Ref { int k; const void *p; };                 // remembered addresses of values
    struct It { int k; typename M::IteratorType it; };    // remembered iterators
    Vec<Ref> ad[4]; Vec<It> its[4];

    MapDrv(Chooser &c, int k, size_t mx, unsigned g) : P(c, k), maxsize(mx), groups(g) { range = c.ex ? 4 : (unsigned)mx * (1 + c.choose(3)) + 2; this->create_all(); }
    M *fresh(void *p) { return new (p) M; }
    Dict fresh_model() { return Dict(); }
    static K_ mk(int k) { return Val<K_>::make(k); }
    static size_t lower(const Dict &s, int k) { size_t lo = 0, hi = s.size(); while (lo < hi) { size_t mid = (lo + hi) / 2; if (KC::before(s[mid].k, k)) lo = mid + 1; else hi = mid; } return lo; }
    static bool has(const Dict &s, int k) { size_t i = lower(s, k); return i < s.size() && s[i].k == k; }
    int draw() { if (!ch.ex && ch.choose(40) == 0) return Val<K_>::norm(odd_value(ch.choose(6))); return Val<K_>::norm(1 + (int)ch.choose(range) - (int)range / 3); }

    template <class It_> void same(const char *key, const It_ &it, const KV &kv) {
        EXPECT_EQ(C_MODEL, key, Val<K_>::key(it->key), kv.k);
        EXPECT_EQ(C_MODEL, key, Val<V_>::key((*it).value), kv.v);
    }
    void verify(int i, bool full) {
        InLib in;
        M &x = *o[i]; const M &cx = x; const Dict &s = m[i]; size_t n = s.size();
        EXPECT_EQ(C_MODEL, "size", cx.size(), n);
        EXPECT(C_MODEL, "capacity", cx.capacity() >= cx.size(), "capacity below size");
        EXPECT_EQ(C_MODEL, "empty", cx.empty(), n == 0);
        note_size(n);
        if (n) {
            const KV &kv = s[G().ops % n]; auto it = x.find(mk(kv.k));
            EXPECT(C_MODEL, "find", it != x.end(), "find(%d) does not find it", kv.k); same("find", it, kv);
            EXPECT_EQ(C_MODEL, "index", Val<V_>::key(x[mk(kv.k)]), kv.v);
            const KV &end = s[G().ops & 1 ? 0 : n - 1]; EXPECT_EQ(C_MODEL, "index-const", Val<V_>::key(cx[mk(kv.k)]), kv.v); EXPECT_EQ(C_MODEL, "index-const", Val<V_>::key(cx[mk(end.k)]), end.v); EXPECT_EQ(C_MODEL, "index", Val<V_>::key(x[mk(end.k)]), end.v);
        }
        if (!full) return;
        if (IsTracked<K_>::value || IsTracked<V_>::value) {
            size_t tot = 0; for (int q = 0; q < P::MAXK; q++) if (o[q]) tot += m[q].size() * (IsTracked<K_>::value + IsTracked<V_>::value);
            if (!this->pending) EXPECT(C_LIFE, "live-count", TS().live == (long)tot, "%ld keys and values alive while the maps hold %zu", TS().live, tot);
        }
        size_t k = 0;
        for (auto it = x.begin(); it != x.end(); k++) { EXPECT(C_MODEL, "iterate", k < n, "iteration yields more than the %zu entries", n); auto was = it, old = it++; EXPECT(C_MODEL, "iterate", old == was && !(old != was), "it++ does not return the position before the step"); same("iterate", old, s[k]); }
        EXPECT_EQ(C_MODEL, "iterate", k, n);
        k = 0;
        for (auto it = cx.begin(); it != cx.end(); ++it, k++) { EXPECT(C_MODEL, "iterate-const", k < n, "iteration yields more than the %zu entries", n); same("iterate-const", it, s[k]); }
        EXPECT_EQ(C_MODEL, "iterate-const", k, n);
        for (k = 0; k < n && n <= 40; k++) {
            EXPECT_EQ(C_MODEL, "index-const", Val<V_>::key(cx[mk(s[k].k)]), s[k].v);
            auto it = cx.find(mk(s[k].k)); EXPECT(C_MODEL, "find", it != cx.end(), "find(%d) does not find it", s[k].k); same("find", it, s[k]);
        }
        for (int q = 0; q < 3; q++) { int a = Val<K_>::norm((int)((G().ops * 7 + q * 5) % (range + 2))); if (!has(s, a)) EXPECT(C_MODEL, "find-absent", x.find(mk(a)) == x.end() && cx.find(mk(a)) == cx.end(), "find(%d) finds an absent key", a); }
        stable(i);
        Seq sh; for (k = 0; k < n; k++) { sh.push_back(s[k].k); } note_state(hash_seq(sh));
    }
    void stable(int i) {
        M &x = *o[i]; Dict &s = m[i];
        for (size_t k = 0; k < ad[i].size(); k++) {
            if (!has(s, ad[i][k].k)) { ad[i][k] = ad[i].back(); ad[i].pop_back(); k--; continue; }
            EXPECT(C_STABLE, "value-moved", (const void *)&x[mk(ad[i][k].k)] == ad[i][k].p, "the value of key %d is at another address than before", ad[i][k].k);
        }
        for (size_t k = 0; k < its[i].size(); k++) {
            const It &r = its[i][k]; size_t at = lower(s, r.k);
            EXPECT(C_STABLE, "iterator-invalid", Val<K_>::key(r.it->key) == r.k && Val<V_>::key(r.it->value) == s[at].v, "an iterator to key %d no longer refers to it", r.k);
            auto nx = r.it; ++nx; EXPECT(C_STABLE, "iterator-next", at + 1 < s.size() ? nx != x.end() && Val<K_>::key(nx->key) == s[at + 1].k : nx == x.end(), "an iterator to key %d does not advance to the next key", r.k);
        }
    }
    void forget(int i) { ad[i].clear(); its[i].clear(); }
    void gone(int i, int k) {
        for (size_t q = 0; q < ad[i].size(); q++) if (ad[i][q].k == k) { ad[i].erase(ad[i].begin() + q); q--; }
        for (size_t q = 0; q < its[i].size(); q++) if (its[i][q].k == k) { its[i].erase(its[i].begin() + q); q--; }
    }
    void remember(int i, int k) {
        if (ch.ex || !has(m[i], k)) return;
        if (ch.choose(2)) { bool seen = false; for (size_t q = 0; q < ad[i].size(); q++) seen = seen || ad[i][q].k == k; if (!seen) { Ref r = { k, (const void *)&(*o[i])[mk(k)] }; ad[i].push_back(r); } }
        else if (its[i].size() < 6) { It r = { k, o[i]->find(mk(k)) }; its[i].push_back(r); }
    }
    void set(int i, int k, int v) {   // m[k] = v: insert or overwrite
        op("set", i, k, v); V_ val = Val<V_>::make(v); K_ key = mk(k); LIB((*o[i])[key] = val);
        size_t at = lower(m[i], k); KV kv = { k, Val<V_>::norm(v) };
        if (has(m[i], k)) m[i][at].v = kv.v; else m[i].insert(m[i].begin() + at, kv);
        remember(i, k);
    }
    void push(int i, int k, int v) {
        if (has(m[i], k)) return set(i, k, v);             // pushing a present key is a misuse
        op("push", i, k, v);
        { K_ key = mk(k); V_ val = Val<V_>::make(v); typename M::KeyValueType kv(key, val); LIB(o[i]->push(kv)); }
        KV kv = { k, Val<V_>::norm(v) }; m[i].insert(m[i].begin() + lower(m[i], k), kv); remember(i, k);
    }
    void read(int i, int k) {         // m[k] creates a default value for an absent key
        op("read", i, k); K_ key = mk(k); int got; LIB(V_ &r = (*o[i])[key]; got = Val<V_>::key(r));
        size_t at = lower(m[i], k); if (!has(m[i], k)) { KV kv = { k, DefVal<V_>::key() }; m[i].insert(m[i].begin() + at, kv); }
        EXPECT_EQ(C_MODEL, "index-read", got, m[i][at].v);
    }
    void pop(int i, int k) {
        size_t at = lower(m[i], k); bool there = has(m[i], k); op(there ? "pop" : "pop_absent", i, k);
        K_ key = mk(k); LIB(o[i]->pop(key)); if (there) { m[i].erase(m[i].begin() + at); gone(i, k); removal(); }
    }
    void erase(int i, int k) {
        M &x = *o[i]; size_t at = lower(m[i], k); op("erase", i, k);
        InLib in;
        auto it = x.find(mk(k)); EXPECT(C_MODEL, "find", it != x.end(), "find(%d) does not find it", k);
        auto nx = x.erase(it); m[i].erase(m[i].begin() + at); gone(i, k); removal();
        if (at < m[i].size()) { EXPECT(C_MODEL, "erase-next", nx != x.end(), "erase does not return the following entry"); same("erase-next", nx, m[i][at]); }
        else EXPECT(C_MODEL, "erase-next", nx == x.end(), "erase of the last entry does not return end");
    }
    void step() {
        int i = (int)ch.choose(K); Dict &s = m[i];
        unsigned r = this->roll(maxsize);
        if ((groups & OG_COPY) && r < 8) { for (int j = 0; j < K; j++) forget(j); return this->copy_op(i); }
        if ((groups & OG_MOVE) && r >= 8 && r < 16) { for (int j = 0; j < K; j++) forget(j); return this->move_op(i); }
        if ((groups & OG_ALIAS) && r >= 16 && r < 26 && !s.empty()) {
            size_t at = ch.choose((unsigned)s.size()); M &x = *o[i]; auto it = x.find(mk(s[at].k)); int k = s[at].k;
            switch (ch.choose(3)) {
            case 0: op("pop_own", i, k); LIB(x.pop(it->key)); s.erase(s.begin() + at); gone(i, k); removal(); break;
            case 1: { int k2 = draw(); op("set_from_own", i, k2, k); bool was = has(s, k2); V_ copy = it->value; LIB(x[mk(k2)] = it->value); (void)copy; int v = s[at].v; size_t a2 = lower(s, k2); if (was) s[a2].v = v; else { KV kv = { k2, v }; s.insert(s.begin() + a2, kv); } break; }
            case 2: { op("index_own", i, k); int g; LIB(g = Val<V_>::key(x[it->key])); EXPECT_EQ(C_MODEL, "index", g, s[at].v); break; }
            }
            verify(i, true); return;
        }
        if (r >= 98) { forget(i); this->recreate_op(i); return; }
        if (r == 97) { op("clear", i); forget(i); LIB(o[i]->clear()); s.clear(); removal(); }
        else if (r >= 89 && !s.empty()) erase(i, s[ch.choose((unsigned)s.size())].k);
        else if (r >= 86) pop(i, draw());
        else if (s.empty() || ph[i].want_grow(ch, s.size(), maxsize)) {
            int k = draw();
            switch (ch.choose(5)) { case 0: read(i, k); break; case 1: case 2: push(i, k, this->val()); break; default: set(i, k, this->val()); }
        } else pop(i, s[ch.choose((unsigned)s.size())].k);
        verify(i, s.size() < 24 ? ch.choose(2) == 0 : ch.choose(30) == 0);
    }
    void step_ex() {
        int i = (int)ch.choose(K), j = K - 1 - i; bool cm = (groups & (OG_COPY | OG_MOVE)) != 0;
        unsigned r = ch.choose(cm ? 10 : 8);
        if (r < 3) push(i, 1 + (int)r, this->val());
        else if (r < 5) read(i, (int)r);
        else if (r == 5) { if (m[i].empty()) op("noop"); else pop(i, m[i][0].k); }
        else if (r == 6) { if (m[i].empty()) op("noop"); else erase(i, m[i].back().k); }
        else if (r == 7) pop(i, 3);
        else if (r == 8 && (groups & OG_COPY)) { op("copy_assign", i, j); LIB(*o[i] = *(const M *)o[j]); m[i] = m[j]; removal(); }
        else if (groups & OG_MOVE) { op("move_assign", i, j); LIB(*o[i] = dstruct::move(*o[j])); if (i != j) { m[i] = m[j]; m[j].clear(); } removal(); }
        else { op("clear", i); LIB(o[i]->clear()); m[i].clear(); removal(); }
        if (ch.unseen()) for (int k = 0; k < K; k++) verify(k, true);
    }
    void finish() { for (int i = 0; i < K; i++) { verify(i, true); if (ch.choose(3) == 0) while (!m[i].empty()) { int k = m[i][ch.choose((unsigned)m[i].size())].k; if (ch.choose(2)) pop(i, k); else erase(i, k); verify(i, true); } } }
};
template <class K_, class V_, class KC, class A> static void rnd(Chooser &ch) {
    const bool many = ch.choose(20) == 0; MapDrv<K_, V_, KC, A> d(ch, 1 + ch.choose(3), many ? 60 + ch.choose(120) : 1 + ch.choose(ch.choose(3) ? 10 : 40), O().opmask);
    int n = (many ? 300 : 20) + (int)ch.choose(80);
    while (n--) d.step();
    d.finish();
}
template <class K_, class V_, class KC, class A> static void big(Chooser &ch) {
    MapDrv<K_, V_, KC, A> d(ch, 1, 1500, O().opmask);
    for (int i = 0; i < 3000; i++) d.step();
    d.verify(0, true);
}
template <class K_, class V_, class KC, class A, int D> static void exh(Chooser &ch) {
    bool cm = (O().opmask & (OG_COPY | OG_MOVE)) != 0;
    MapDrv<K_, V_, KC, A> d(ch, cm ? 2 : 1, 1000, O().opmask);
    int n = D - (cm ? 2 : 0) + O().depth_bonus;
    while (n--) d.step_ex();
}
int main(int argc, char **argv) {
    typedef VH_ALLOC A;
#ifndef VH_NO_WATCH
    watch_malloc();
#endif
#if PART(0)
    add("random", "map<int,int>", 2500, rnd<int, int, KLess<int>, A>);
    add("random", "map<Tracked,Tracked>", 1500, rnd<Tracked, Tracked, KLess<Tracked>, A>);
    add("random", "map<int,Tracked,greater>/up", 800, rnd<int, Tracked, KGreater<int>, A>, VA_UP);
    add("exhaustive", "map<int,int>/exhaustive", 0, exh<int, int, KLess<int>, A, 5>);
    add("large", "map<int,int>/large", 4, big<int, int, KLess<int>, A>);
#endif
#if PART(1)
    add("random", "map<ptr,int>", 800, rnd<const char *, int, KLess<const char *>, A>);
    add("random", "map<Tracked,int,custom>/down", 600, rnd<Tracked, int, KMod, A>, VA_DOWN);
    add("random", "map<int,bool>", 600, rnd<int, bool, KLess<int>, A>);
    add("random", "map<Tiny,Fat>", 400, rnd<Tiny, Fat, KLess<Tiny>, A>);
    add("random", "map<int,String>", 800, rnd<int, Str, KLess<int>, A>);
    add("random", "map<char,Vector>", 500, rnd<char, IntVec, KLess<char>, A>);
#ifndef VH_SMALL_ALIGN
    add("random", "map<longdouble,Big>", 400, rnd<long double, Big, KLess<long double>, A>);
#endif
    add("exhaustive", "map<Tracked,Tracked>/exhaustive", 0, exh<Tracked, Tracked, KLess<Tracked>, A, 5>);
#endif
    return vh_main(argc, argv);
}
