// BasicString against a model made of a plain character sequence.
#include "pool.hpp"
using namespace vh;
typedef Vec<char> Chars;

template <class A>
struct StrDrv : Pool<dstruct::BasicString<char, A>, Chars, StrDrv<A> > {
    typedef dstruct::BasicString<char, A> S;
    typedef Pool<S, Chars, StrDrv<A> > P;
    using P::o; using P::m; using P::ch; using P::K;
    size_t maxsize; unsigned groups; unsigned alphabet;

    StrDrv(Chooser &c, int k, size_t mx, unsigned g) : P(c, k), maxsize(mx), groups(g), alphabet(1 + c.choose(3)) { this->create_all(); }
    S *fresh(void *p) { return new (p) S; }
    Chars fresh_model() { return Chars(); }

    char letter() {
        if (alphabet == 1) return (char)('a' + ch.choose(2));          // many equal strings and shared prefixes
        if (alphabet == 2) return (char)('a' + ch.choose(26));
        char c = (char)(1 + ch.choose(255)); return c;                  // any non-NUL character
    }
    Chars text(size_t n) { Chars t; while (n--) t.push_back(letter()); return t; }
    static Chars z(const Chars &t) { Chars r(t); r.push_back('\0'); return r; }
    size_t len() { unsigned r = ch.choose(6); return r == 0 ? 0 : r == 1 ? 1 : r == 2 ? 13 + ch.choose(5) : ch.choose((unsigned)maxsize + 1); }

    void cmp_str(const char *key, const S &s, const Chars &t) {
        EXPECT_EQ(C_MODEL, "size", s.size(), t.size());
        const char *c = s.c_str();
        for (size_t k = 0; k < t.size(); k++) EXPECT(C_MODEL, key, c[k] == t[k], "character %zu of %zu is %d, want %d", k, t.size(), c[k], t[k]);
        EXPECT(C_MODEL, "terminator", c[t.size()] == '\0', "c_str() of a string of size %zu is not terminated after its last character", t.size());
    }
    void verify(int i, bool full) {
        InLib in;
        S &s = *o[i]; const S &cs = s; const Chars &t = m[i];
        EXPECT_EQ(C_MODEL, "empty", cs.empty(), t.empty());
        note_size(t.size());
        cmp_str("content", cs, t);
        EXPECT(C_MODEL, "capacity", cs.capacity() >= cs.size(), "capacity below size");
        if (!t.empty()) {
            EXPECT_EQ(C_MODEL, "front", cs.front(), t[0]);
            EXPECT_EQ(C_MODEL, "back", cs.back(), t.back());
        }
        if (!full) return;
        for (size_t k = 0; k < t.size(); k++) { EXPECT_EQ(C_MODEL, "index", s[(int)k], t[k]); EXPECT_EQ(C_MODEL, "index", cs[(int)k], t[k]); }
        size_t n = 0;
        for (char c : s) { EXPECT(C_MODEL, "iterate", n < t.size() && c == t[n], "iteration differs at %zu", n); n++; }
        EXPECT_EQ(C_MODEL, "iterate", n, t.size());
        for (auto it = cs.end(); it != cs.begin();) { n--; --it; EXPECT(C_MODEL, "iterate-back", n < t.size() && *it == t[n], "backward iteration differs at %zu", n); }
        EXPECT_EQ(C_MODEL, "iterate-back", n, 0);
        n = 0;
        for (auto it = cs.begin(); it != cs.end(); ++it) { EXPECT(C_MODEL, "iterate-const", n < t.size() && *it == t[n], "iteration differs at %zu", n); n++; }
        EXPECT_EQ(C_MODEL, "iterate-const", n, t.size());
        Chars zt = z(t);
        EXPECT(C_MODEL, "equal-cstr", cs == zt.data() && zt.data() == cs && !(cs != zt.data()) && !(zt.data() != cs), "string does not compare equal to its own characters");
        uint64_t h = t.size(); for (char c : t) h = mix(h, (unsigned char)c); note_state(h);
    }
    void compare(int i, int j) {
        InLib in;
        const S &a = *o[i], &b = *o[j]; const Chars &ta = m[i], &tb = m[j];
        bool eq = ta == tb;
        EXPECT_EQ(C_MODEL, "equal", a == b, eq);
        EXPECT_EQ(C_MODEL, "not-equal", a != b, !eq);
        Chars zb = z(tb);
        EXPECT_EQ(C_MODEL, "equal-cstr", a == zb.data(), eq);
        EXPECT_EQ(C_MODEL, "equal-cstr", zb.data() == a, eq);
        EXPECT_EQ(C_MODEL, "not-equal-cstr", a != zb.data(), !eq);
        EXPECT_EQ(C_MODEL, "not-equal-cstr", zb.data() != a, !eq);
    }
    void concat(int i, int j) {
        const S &a = *o[i], &b = *o[j]; Chars t = m[i]; t.insert(t.end(), m[j].begin(), m[j].end());
        Chars zi = z(m[i]), zj = z(m[j]);
        InLib in;
        { S r = a + b; cmp_str("plus", r, t); }
        { S r = a + zj.data(); cmp_str("plus-cstr", r, t); }
        { S r = zi.data() + b; cmp_str("cstr-plus", r, t); }
        cmp_str("plus-operand", a, m[i]); cmp_str("plus-operand", b, m[j]);
    }
    void step() {
        int i = (int)ch.choose(K);
        unsigned r = ch.choose(100);
        if ((groups & OG_COPY) && r < 8) return this->copy_op(i);
        if ((groups & OG_MOVE) && r >= 8 && r < 16) return this->move_op(i);
        S &s = *o[i]; Chars &t = m[i];
        if ((groups & OG_ALIAS) && r >= 16 && r < 34) {
            switch (ch.choose(6)) {
            case 0: if (t.size() * 2 > maxsize * 4) break; op("append_self", i); LIB(s += s); { Chars u(t); t.insert(t.end(), u.begin(), u.end()); } break;
            case 1: if (t.size() * 2 > maxsize * 4) break; op("append_own_cstr", i); LIB(s += s.c_str()); { Chars u(t); t.insert(t.end(), u.begin(), u.end()); } break;
            case 2: if (t.empty()) break; { int k = (int)ch.choose((unsigned)t.size()); op("push_own", i, k); LIB(s.push_back(s[k])); t.push_back(t[k]); } break;
            case 3: op("assign_own_cstr", i); LIB(s = s.c_str()); break;
            // a suffix of its own text
            case 4: { size_t k = ch.choose((unsigned)t.size() + 1); op("assign_own_suffix", i, (long)k); LIB(s = s.c_str() + k); t.erase(t.begin(), t.begin() + k); removal(); break; }
            case 5: { size_t k = ch.choose((unsigned)t.size() + 1); if (t.size() * 2 > maxsize * 4) break; op("append_own_suffix", i, (long)k); LIB(s += s.c_str() + k); Chars u(t.begin() + k, t.end()); t.insert(t.end(), u.begin(), u.end()); break; }
            }
            verify(i, true); return;
        }
        bool small = t.size() <= maxsize;
        switch (ch.choose(13)) {
        case 0: case 1: case 2: { char c = letter(); op("push_back", i, c); LIB(s.push_back(c)); t.push_back(c); break; }
        case 3: { if (!small) break; Chars x = text(len()), zx = z(x); op("append_cstr", i, x.size()); LIB(s += zx.data()); t.insert(t.end(), x.begin(), x.end()); break; }
        case 4: { if (!small) break; int j = (int)ch.choose(K); if (j == i && K > 1) j = (i + 1) % K; if (j == i) break; op("append", i, j); LIB(s += *(const S *)o[j]); t.insert(t.end(), m[j].begin(), m[j].end()); break; }
        case 5: { if (t.empty()) break; int k = (int)ch.choose((unsigned)t.size()); char c = letter(); op("set", i, k, c); LIB(s[k] = c); t[k] = c; break; }
        case 6: { op("clear", i); LIB(s.clear()); t.clear(); removal(); break; }
        case 7: { Chars x = text(len()), zx = z(x); op("assign_cstr", i, x.size()); LIB(s = zx.data()); t = x; removal(); break; }
        case 8: { Chars x = text(len()), zx = z(x); op("construct_cstr", i, x.size()); this->kill(i); void *q = this->mem(); S *p = 0; LIB(p = new (q) S(zx.data())); o[i] = p; t = x; removal(); break; }
        case 9: { int j = (int)ch.choose(K); op("compare", i, j); compare(i, j); break; }
        case 10: { int j = (int)ch.choose(K); op("concat", i, j); if (small && m[j].size() <= maxsize) concat(i, j); break; }
        case 11: { // a string that differs from an existing one in one place only
            int j = (int)ch.choose(K); if (m[j].empty()) break; Chars x = m[j]; size_t k = ch.choose(2) ? x.size() - 1 : ch.choose((unsigned)x.size());
            size_t k2 = ch.choose((unsigned)x.size());
            switch (ch.choose(6)) {
            default: x[k] = x[k] == 'q' ? 'r' : 'q'; break;
            case 1: { char c = x[k]; x[k] = x[k2]; x[k2] = c; break; }                       // the same characters in another order
            case 2: std::reverse(x.begin(), x.end()); break;
            case 3: if (k != k2 && x[k] != 127 && x[k2] > 1) { x[k]++; x[k2]--; if (!x[k]) x[k] = 'z'; } break;   // the same sum
            case 4: x.pop_back(); break;
            case 5: x.insert(x.begin() + k, 'q'); break;
            }
            Chars zx = z(x); op("near_copy", i, j, k);
            if (i == j) break;
            LIB(s = zx.data()); t = x; removal(); compare(i, j); break; }
        case 12: this->recreate_op(i); return;
        }
        verify(i, ch.choose(3) == 0);
    }
    void step_ex() {
        int i = (int)ch.choose(K); S &s = *o[i]; Chars &t = m[i]; int j = K - 1 - i;
        switch (ch.choose(6)) {
        case 0: op("push", i); LIB(s.push_back('x')); t.push_back('x'); break;
        case 1: op("append_self_or_other", i, j);
                if (j == i && !(groups & OG_ALIAS)) { Chars zx = z(t); LIB(s += zx.data()); } else LIB(s += *o[j]);
                { Chars u(m[j]); t.insert(t.end(), u.begin(), u.end()); } break;
        case 2: op("append_empty", i); LIB(s += ""); break;
        case 3: op("assign15", i); LIB(s = "0123456789abcde"); t.assign("0123456789abcde", "0123456789abcde" + 15); removal(); break;
        case 4: op("clear", i); LIB(s.clear()); t.clear(); removal(); break;
        case 5: if (groups & OG_COPY) { op("copy_assign", i, j); LIB(s = *(const S *)o[j]); t = m[j]; }
                else if (groups & OG_MOVE) { op("move_assign", i, j); LIB(s = dstruct::move(*o[j])); if (i != j) { t = m[j]; m[j].clear(); } }
                else { op("assign_empty", i); LIB(s = ""); t.clear(); } removal(); break;
        }
        if (ch.unseen()) { for (int k = 0; k < K; k++) verify(k, true); compare(0, K - 1); }
    }
    void finish() { for (int i = 0; i < K; i++) { verify(i, true); compare(0, i); } }
};
template <class A> static void rnd(Chooser &ch) {
    StrDrv<A> d(ch, 1 + ch.choose(3), 1 + ch.choose(ch.choose(16) ? 40 : 300), O().opmask);
    int n = 15 + (int)ch.choose(50);
    while (n--) d.step();
    d.finish();
}
template <class A> static void big(Chooser &ch) {
    StrDrv<A> d(ch, 2, 3000, O().opmask);
    for (int i = 0; i < 400; i++) d.step();
    d.finish();
}
template <class A, int D> static void exh(Chooser &ch) {
    StrDrv<A> d(ch, 2, 1000, O().opmask);
    for (int i = 0; i < D + O().depth_bonus; i++) d.step_ex();
}
int main(int argc, char **argv) {
    typedef VH_ALLOC A;
#ifndef VH_NO_WATCH
    watch_malloc();
#endif
    add("random", "string", 12000, rnd<A>);
    add("random", "string/up", 2000, rnd<A>, VA_UP);
    add("random", "string/down", 2000, rnd<A>, VA_DOWN);
    add("exhaustive", "string/exhaustive", 0, exh<A, 4>);
    add("large", "string/large", 10, big<A>);
    return vh_main(argc, argv);
}
