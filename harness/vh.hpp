// Monitoring core shared by every workload driver in /verif/harness.
//
// It owns: the choice source (random or exhaustive odometer), the operation trace,
// the monitored allocator VA, the lifetime-registered element type Tracked, the
// malloc observer, the verdict sink (viol / soft) and the run statistics.
// Nothing in here knows how a DStruct container is implemented.
#pragma once
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <stdarg.h>
#include <signal.h>
#include <unistd.h>
#include <sys/time.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <sys/mman.h>
#include <vector>
#include <algorithm>
#include <new>

#if defined(__has_feature)
#  if __has_feature(address_sanitizer)
#    define VH_ASAN 1
#  endif
#  if __has_feature(memory_sanitizer)
#    define VH_MSAN 1
#  endif
#endif
#if defined(__SANITIZE_ADDRESS__) && !defined(VH_ASAN)
#  define VH_ASAN 1
#endif
#if defined(VH_ASAN)
#include <sanitizer/asan_interface.h>
#endif
#if defined(VH_MSAN)
#include <sanitizer/msan_interface.h>
#endif
#if defined(VH_ASAN) || defined(VH_MSAN)
#  define VH_SAN 1
extern "C" int __sanitizer_install_malloc_and_free_hooks(
    void (*malloc_hook)(const volatile void *, size_t), void (*free_hook)(const volatile void *));
extern "C" void __sanitizer_set_death_callback(void (*cb)(void));
#endif

namespace vh {

static volatile int g_in_lib;     // >0 while library code runs

struct InLib { InLib() { g_in_lib = g_in_lib + 1; } ~InLib() { g_in_lib = g_in_lib - 1; } };
#define LIB(...) do { vh::InLib vh_in_lib_; __VA_ARGS__; } while (0)
struct OutLib { int s; OutLib() : s(g_in_lib) { g_in_lib = 0; } ~OutLib() { g_in_lib = s; } };

// The harness' own containers: their memory is never mistaken for the library's.
template <class T> struct HA {
    typedef T value_type;
    HA() {}
    template <class U> HA(const HA<U> &) {}
    T *allocate(size_t n) { OutLib o; void *p = malloc(n * sizeof(T)); if (!p) { fprintf(stderr, "harness: out of memory\n"); _Exit(3); } return (T *)p; }
    void deallocate(T *p, size_t) { free(p); }
    template <class U> bool operator==(const HA<U> &) const { return true; }
    template <class U> bool operator!=(const HA<U> &) const { return false; }
};
template <class T> using Vec = std::vector<T, HA<T> >;

// ---------------------------------------------------------------- randomness
struct Rng {
    uint64_t s;
    explicit Rng(uint64_t seed = 1) : s(seed) {}
    uint64_t next() {
        uint64_t z = (s += 0x9E3779B97F4A7C15ull);
        z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
        z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
        return z ^ (z >> 31);
    }
    unsigned below(unsigned n) { return n ? (unsigned)(next() % n) : 0; }
    bool chance(unsigned num, unsigned den) { return below(den) < num; }
};

inline uint64_t mix(uint64_t h, uint64_t v) {
    h ^= v + 0x9E3779B97F4A7C15ull + (h << 6) + (h >> 2);
    h *= 0xff51afd7ed558ccdull;
    return h ^ (h >> 29);
}

// Source of every decision of a workload. Random, or an odometer which walks the
// complete tree of decisions of a bounded workload.
struct Chooser {
    bool ex;
    Rng rng;
    Vec<unsigned> val, lim;
    size_t pos, changed;
    Chooser() : ex(false), rng(1), pos(0), changed(0) {}
    void start_random(uint64_t seed) { ex = false; rng = Rng(seed); }
    void start_exhaustive() { ex = true; val.clear(); lim.clear(); pos = changed = 0; }
    // false while replaying a prefix of decisions that an earlier path already went through and verified
    bool unseen() const { return !ex || pos > changed; }
    unsigned choose(unsigned n) {
        if (n <= 1) return 0;
        if (!ex) return rng.below(n);
        if (pos == val.size()) { val.push_back(0); lim.push_back(n); }
        return val[pos++];
    }
    bool advance() { // next path, false when the tree is exhausted
        val.resize(pos); lim.resize(pos);
        while (!val.empty() && val.back() + 1 >= lim.back()) { val.pop_back(); lim.pop_back(); }
        if (val.empty()) return false;
        val.back()++; pos = 0; changed = val.size() - 1;
        return true;
    }
    void rewind() { pos = 0; }
};

// ---------------------------------------------------------------- verdicts
enum Cls {
    C_MODEL    = 1 << 0,  // observable result differs from the reference model
    C_LIFE     = 1 << 1,  // element constructed/destroyed/used outside its lifetime
    C_ALLOC    = 1 << 2,  // allocator contract
    C_LEAK     = 1 << 3,  // memory or elements left behind
    C_BOUND    = 1 << 4,  // memory footprint
    C_COST     = 1 << 5,  // logical work
    C_STABLE   = 1 << 6,  // address of an element changed
    C_CRASH    = 1 << 7,  // crash / sanitizer report / failed internal assertion in valid use
    C_HANG     = 1 << 8,
    C_STOP     = 1 << 9,  // misuse or failed allocation did not stop the program
    C_MALLOC   = 1 << 10, // memory obtained outside the configured allocator
    C_SMA_BLK  = 1 << 11, // static allocator: block validity
    C_SMA_ACC  = 1 << 12, // static allocator: accounting
    C_SMA_MRG  = 1 << 13, // static allocator: merging
};
inline const char *cls_name(unsigned c) {
    switch (c) {
    case C_MODEL: return "model"; case C_LIFE: return "lifetime"; case C_ALLOC: return "alloc";
    case C_LEAK: return "leak"; case C_BOUND: return "bound"; case C_COST: return "cost";
    case C_STABLE: return "stability"; case C_CRASH: return "crash"; case C_HANG: return "hang";
    case C_STOP: return "failstop"; case C_MALLOC: return "malloc"; case C_SMA_BLK: return "smablock";
    case C_SMA_ACC: return "smaacct"; case C_SMA_MRG: return "smamerge";
    }
    return "?";
}
inline unsigned cls_parse(const char *s) {
    unsigned m = 0;
    for (unsigned i = 0; i < 14; i++) {
        const char *n = cls_name(1u << i);
        const char *p = strstr(s, n);
        if (p) m |= 1u << i;
    }
    return m;
}

struct CaseAbort {};   // ends a case after a violation of a class nobody asked for

struct TraceOp { const char *name; long a, b, c; };

struct Global {
    unsigned enabled;            // classes which are violations in this run
    const char *config;          // workload configuration being run
    uint64_t case_seed; long case_no;
    Vec<TraceOp> trace;  // current case
    size_t trace_dropped;
    bool in_child;
    // statistics
    long cases, ops, checks, aborted, exhaustive_cases, exhaustive_done;
    long maxsize, forks, faults, stops, survived;
    Vec<uint64_t> hist;  // hashes of non-trivial histories
    uint64_t hist_hash; long hist_ops, hist_removals; bool nontrivial;
    Vec<uint64_t> states; // distinct abstract states, open addressing
    size_t nstates;
    long ignored[16];
    char samples[4][1600]; int nsamples;
    int case_cpu_limit;
};
static Global g_glob;                       // one translation unit per binary
inline Global &G() { return g_glob; }


inline void dump_trace(FILE *f, size_t last = 250) {
    Global &g = G();
    size_t n = g.trace.size(), from = n > last ? n - last : 0;
    fprintf(f, "TRACE config=%s case=%ld seed=%llu ops=%zu (showing from %zu)\n",
            g.config ? g.config : "?", g.case_no, (unsigned long long)g.case_seed, n + g.trace_dropped, from + g.trace_dropped);
    for (size_t i = from; i < n; i++)
        fprintf(f, "  #%zu %s %ld %ld %ld\n", i + g.trace_dropped, g.trace[i].name, g.trace[i].a, g.trace[i].b, g.trace[i].c);
    fflush(f);
}

inline void vreport(unsigned cls, const char *key, const char *fmt, va_list ap) {
    char buf[900];
    vsnprintf(buf, sizeof buf, fmt, ap);
    g_in_lib = 0;
    printf("%sVIOL cls=%s key=%s :: config=%s %s\n", G().in_child ? "CHILD" : "", cls_name(cls), key, G().config ? G().config : "?", buf);
    dump_trace(stdout);
    fflush(stdout);
    _Exit(10);
}

// violation seen by driver code
inline void viol(unsigned cls, const char *key, const char *fmt, ...) {
    va_list ap; va_start(ap, fmt);
    if (G().enabled & cls) vreport(cls, key, fmt, ap);
    va_end(ap);
    for (int i = 0; i < 16; i++) if (cls == (1u << i)) G().ignored[i]++;
    throw CaseAbort();
}
// violation seen by a hook that runs inside library code: cannot throw
inline void soft(unsigned cls, const char *key, const char *fmt, ...) {
    va_list ap; va_start(ap, fmt);
    if (G().enabled & cls) vreport(cls, key, fmt, ap);
    va_end(ap);
    for (int i = 0; i < 16; i++) if (cls == (1u << i)) G().ignored[i]++;
}
#define EXPECT(cls, key, cond, ...) do { vh::G().checks++; if (!(cond)) vh::viol(cls, key, __VA_ARGS__); } while (0)
#define EXPECT_EQ(cls, key, got, want) do { vh::G().checks++; \
    long long vh_g_ = (long long)(got), vh_w_ = (long long)(want); \
    if (vh_g_ != vh_w_) vh::viol(cls, key, "%s: got %lld, want %lld", #got, vh_g_, vh_w_); } while (0)

inline void op(const char *name, long a = 0, long b = 0, long c = 0) {
    Global &g = G();
    g.ops++; g.hist_ops++;
    uint64_t h = (uint64_t)(uintptr_t)0;
    for (const char *p = name; *p; p++) h = h * 131 + (unsigned char)*p;
    g.hist_hash = mix(mix(mix(mix(g.hist_hash, h), (uint64_t)a), (uint64_t)b), (uint64_t)c);
    if (g.trace.size() >= 20000) { g.trace_dropped += 10000; g.trace.erase(g.trace.begin(), g.trace.begin() + 10000); }
    TraceOp t = { name, a, b, c };
    g.trace.push_back(t);
}
inline void removal() { G().hist_removals++; }
inline void note_size(size_t n) { if ((long)n > G().maxsize) G().maxsize = (long)n; }

inline void note_state(uint64_t h) {
    Global &g = G();
    OutLib ol_;
    if (g.states.empty()) g.states.assign(1u << 18, 0);
    if (!h) h = 1;
    size_t m = g.states.size() - 1, i = (size_t)h & m;
    while (g.states[i] && g.states[i] != h) i = (i + 1) & m;
    if (!g.states[i] && g.nstates < g.states.size() * 3 / 4) { g.states[i] = h; g.nstates++; }
}

// ---------------------------------------------------------------- malloc observer
static long g_lib_mallocs;
#if defined(VH_SAN)
inline void malloc_hook_(const volatile void *p, size_t n) {
    if (g_in_lib > 0 && p) {
        g_lib_mallocs++;
        OutLib o;
        soft(C_MALLOC, "malloc-outside-allocator", "library code obtained %zu bytes from malloc/new although it was given its own allocator", n);
    }
}
inline void free_hook_(const volatile void *) {}
#endif
static bool g_watch_malloc;
inline void watch_malloc() {
#if defined(VH_SAN)
    if (!g_watch_malloc) { g_watch_malloc = true; __sanitizer_install_malloc_and_free_hooks(malloc_hook_, free_hook_); }
#endif
}

// ---------------------------------------------------------------- monitored allocator
// Address registry: open addressing with tombstones, storage never from malloc.
struct Registry {
    struct E { uintptr_t k; uint64_t v; };
    E *t; size_t cap, used, tomb;
    Registry() : t(0), cap(0), used(0), tomb(0) {}
    static E *raw(size_t n) {
        void *p = mmap(0, n * sizeof(E), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        if (p == MAP_FAILED) { fprintf(stderr, "harness: mmap failed\n"); _Exit(3); }
        return (E *)p;
    }
    static size_t hsh(uintptr_t k) { uint64_t x = k; x ^= x >> 33; x *= 0xff51afd7ed558ccdull; x ^= x >> 33; return (size_t)x; }
    void rehash() {
        size_t ncap = cap ? (used * 2 > cap / 2 ? cap * 2 : cap) : (1u << 12);
        E *n = raw(ncap), *o = t; size_t oc = cap;
        t = n; cap = ncap; size_t u = used; used = tomb = 0; (void)u;
        for (size_t i = 0; i < oc; i++) if (o[i].k > 1) put(o[i].k, o[i].v);
        if (o) munmap(o, oc * sizeof(E));
    }
    E *find(uintptr_t k) {
        if (!cap) return 0;
        for (size_t i = hsh(k) & (cap - 1);; i = (i + 1) & (cap - 1)) {
            if (t[i].k == k) return &t[i];
            if (t[i].k == 0) return 0;
        }
    }
    void put(uintptr_t k, uint64_t v) {
        if ((used + tomb + 1) * 4 > cap * 3) rehash();
        size_t i = hsh(k) & (cap - 1);
        while (t[i].k > 1) i = (i + 1) & (cap - 1);
        if (t[i].k == 1) tomb--;
        t[i].k = k; t[i].v = v; used++;
    }
    void erase(E *e) { e->k = 1; used--; tomb++; }
    void clear() { if (t) munmap(t, cap * sizeof(E)); t = 0; cap = used = tomb = 0; }
};

enum VaMode { VA_MALLOC, VA_UP, VA_DOWN };
struct VaState {
    VaMode mode;
    Registry reg;
    long live_blocks; long long live_bytes, peak_bytes;
    long allocs, deallocs, total; long long got;
    long fail_at;            // ordinal of the allocation which fails, -1: none
    bool failed;
    char *arena; size_t arena_size, up, down;
    // free blocks of the arena by size (most recently freed first)
    struct F { size_t size; char *p; };
    F *freel; size_t nfree;
};
static VaState g_va;
inline VaState &VA_() { return g_va; }

static const long long VA_LIMIT = 1500ll << 20;

inline void va_reset(VaMode mode) {
    VaState &s = VA_();
    s.mode = mode;
    s.fail_at = -1; s.failed = false;
    s.allocs = s.deallocs = 0; s.got = 0;
    if (s.live_blocks == 0 && s.arena) {
#if defined(VH_ASAN)
        if (s.up) ASAN_UNPOISON_MEMORY_REGION(s.arena, s.up);
        if (s.down < s.arena_size) ASAN_UNPOISON_MEMORY_REGION(s.arena + s.down, s.arena_size - s.down);
#endif
        s.up = 0; s.down = s.arena_size; s.nfree = 0;
    }
    s.peak_bytes = s.live_bytes;
}

struct VA {
    static void *allocate(int bytes) {
        OutLib o;
        VaState &s = VA_();
        if (bytes <= 0) soft(C_ALLOC, "alloc-size", "allocate(%d): not a positive size", bytes);
        if (s.fail_at >= 0 && s.allocs == s.fail_at) { s.allocs++; s.failed = true; return 0; }
        s.allocs++; s.total++; s.got += bytes;
        if (s.live_bytes + bytes > VA_LIMIT) {
            soft(C_HANG, "unbounded-allocation", "library keeps allocating: more than %lld bytes live", VA_LIMIT);
            _Exit(12);
        }
        char *p = 0;
        if (s.mode == VA_MALLOC) {
            p = (char *)malloc(bytes > 0 ? bytes : 1);
        } else {
            if (!s.arena) {
                s.arena_size = 48u << 20;
                s.arena = (char *)mmap(0, s.arena_size, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
                s.freel = (VaState::F *)mmap(0, sizeof(VaState::F) << 21, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
                s.up = 0; s.down = s.arena_size;
            }
            size_t sz = (size_t)(bytes > 0 ? bytes : 1); sz = (sz + 7) & ~(size_t)7;
            // most recently freed block of exactly this size is handed out again at once
            for (size_t i = s.nfree, k = 0; i-- > 0 && k < 64; k++)
                if (s.freel[i].size == sz) { p = s.freel[i].p; s.freel[i] = s.freel[--s.nfree]; break; }
            if (!p) {
                size_t al = sz % 16 == 0 ? 16 : 8;      // blocks touch each other whenever sizes allow
                if (s.mode == VA_UP) {
                    s.up = (s.up + al - 1) & ~(al - 1);
                    if (s.up + sz > s.down) { p = (char *)malloc(sz); } else { p = s.arena + s.up; s.up += sz; }
                } else {
                    size_t d = (s.down - sz) & ~(al - 1);
                    if (sz > s.down || d < s.up) { p = (char *)malloc(sz); } else { p = s.arena + d; s.down = d; }
                }
            }
#if defined(VH_ASAN)
            ASAN_UNPOISON_MEMORY_REGION(p, sz);
#endif
#if defined(VH_ASAN)
            if ((size_t)bytes < sz && bytes > 0) ASAN_POISON_MEMORY_REGION(p + bytes, sz - bytes);
#endif
        }
        if (!p) { fprintf(stderr, "harness: out of memory\n"); _Exit(3); }
        if (bytes > 0) memset(p, 0xC5, bytes);   // fresh memory is garbage
#if defined(VH_MSAN)
        if (bytes > 0) __msan_allocated_memory(p, bytes);
#endif
        s.reg.put((uintptr_t)p, (uint64_t)(unsigned)bytes);
        s.live_blocks++; s.live_bytes += bytes;
        if (s.live_bytes > s.peak_bytes) s.peak_bytes = s.live_bytes;
        return p;
    }
    static void deallocate(void *addr, int bytes) {
        OutLib o;
        VaState &s = VA_();
        s.deallocs++;
        Registry::E *e = addr ? s.reg.find((uintptr_t)addr) : 0;
        if (!e) {
            soft(C_ALLOC, "dealloc-foreign", "deallocate(%p, %d): block was not obtained from this allocator or is already released", addr, bytes);
            return;
        }
        if ((int)e->v != bytes) {
            soft(C_ALLOC, "dealloc-size", "deallocate(.., %d): block was allocated with size %d", bytes, (int)e->v);
        }
        int real = (int)e->v;
        s.reg.erase(e);
        s.live_blocks--; s.live_bytes -= real;
        if (real > 0) {
            memset(addr, 0xDD, real);
        }
        char *p = (char *)addr;
        if (s.arena && p >= s.arena && p < s.arena + s.arena_size) {
            size_t sz = ((size_t)(real > 0 ? real : 1) + 7) & ~(size_t)7;
#if defined(VH_ASAN)
            ASAN_POISON_MEMORY_REGION(p, sz);
#endif
#if defined(VH_MSAN)
            __msan_allocated_memory(p, sz);
#endif
            if (s.nfree < (1u << 21)) { s.freel[s.nfree].size = sz; s.freel[s.nfree].p = p; s.nfree++; }
        } else {
            free(p);
        }
    }
};

// ---------------------------------------------------------------- tracked element
// Every construction, copy, assignment, comparison and destruction is checked
// against a registry of the objects that are alive.
struct TrackedStat { Registry reg; long live, copies, assigns, ctors, dtors, compares; };
static TrackedStat g_ts;
inline TrackedStat &TS() { return g_ts; }

struct Tracked {
    int k;
    const Tracked *self;
    int pad[3];
    void born(int key) {
        OutLib o;
        TrackedStat &s = TS();
        if (s.reg.find((uintptr_t)this)) soft(C_LIFE, "construct-over-live", "element constructed over an element that is still alive");
        else s.reg.put((uintptr_t)this, 1);
        s.live++; s.ctors++;
        k = key; self = this; pad[0] = key ^ 0x55; pad[1] = ~key; pad[2] = key ^ 0x7777;
    }
    void use(const char *what) const {
        OutLib o;
        if (!TS().reg.find((uintptr_t)this)) { soft(C_LIFE, "use-not-alive", "%s of an element that is not alive", what); return; }
        if (self != this) { soft(C_LIFE, "relocated", "%s of an element that was moved bitwise", what); return; }
        if (pad[0] != (k ^ 0x55) || pad[1] != ~k || pad[2] != (k ^ 0x7777)) soft(C_LIFE, "torn", "%s of an element with damaged contents", what);
    }
    Tracked() { born(-1); }
    explicit Tracked(int key) { born(key); }
    Tracked(const Tracked &o) { o.use("copy"); TS().copies++; born(o.k); }
    Tracked &operator=(const Tracked &o) {
        use("assignment to"); o.use("assignment from");
        TS().assigns++;
        set(o.k);
        return *this;
    }
    // a move leaves a value behind which orders after every other
    Tracked(Tracked &&o) { o.use("move"); TS().copies++; born(o.k); o.set(0x7ffffff0); }
    Tracked &operator=(Tracked &&o) {
        use("assignment to"); o.use("move from");
        TS().assigns++;
        if (this != &o) { set(o.k); o.set(0x7ffffff0); }
        return *this;
    }
    void set(int key) { k = key; pad[0] = k ^ 0x55; pad[1] = ~k; pad[2] = k ^ 0x7777; }
    ~Tracked() {
        OutLib o;
        TrackedStat &s = TS();
        Registry::E *e = s.reg.find((uintptr_t)this);
        if (!e) soft(C_LIFE, "destroy-not-alive", "destruction of an element that is not alive");
        else s.reg.erase(e);
        s.live--; s.dtors++;
        k = (int)0xDEADBEEF; self = 0; pad[0] = pad[1] = pad[2] = 0;
    }
    bool operator==(const Tracked &o) const { use("compare"); o.use("compare"); TS().compares++; return k == o.k; }
    bool operator!=(const Tracked &o) const { return !(*this == o); }
    bool operator<(const Tracked &o) const { use("compare"); o.use("compare"); TS().compares++; return k < o.k; }
    bool operator>(const Tracked &o) const { return o < *this; }
};

struct Fat : Tracked {   // a tracked element of several hundred bytes
    unsigned char body[300];
    void paint() { for (int i = 0; i < 300; i++) body[i] = (unsigned char)((unsigned)k * 7u + (unsigned)i); }
    Fat() { paint(); }
    explicit Fat(int key) : Tracked(key) { paint(); }
    Fat(const Fat &o) : Tracked(o) { memcpy(body, o.body, sizeof body); }
    Fat &operator=(const Fat &o) { Tracked::operator=(o); memmove(body, o.body, sizeof body); return *this; }
    Fat(Fat &&o) : Tracked(static_cast<Tracked &&>(o)) { memcpy(body, o.body, sizeof body); }
    Fat &operator=(Fat &&o) { Tracked::operator=(static_cast<Tracked &&>(o)); memmove(body, o.body, sizeof body); return *this; }
    bool whole() const { for (int i = 0; i < 300; i++) if (body[i] != (unsigned char)((unsigned)k * 7u + (unsigned)i)) return false; return true; }
};
struct Tiny {            // a tracked element of the size of an int
    int k;
    void born(int key) {
        OutLib o; TrackedStat &s = TS();
        if (s.reg.find((uintptr_t)this)) soft(C_LIFE, "construct-over-live", "element constructed over an element that is still alive");
        else s.reg.put((uintptr_t)this, 1);
        s.live++; s.ctors++; k = key;
    }
    void use(const char *what) const { OutLib o; if (!TS().reg.find((uintptr_t)this)) soft(C_LIFE, "use-not-alive", "%s of an element that is not alive", what); }
    Tiny() { born(-1); }
    explicit Tiny(int key) { born(key); }
    Tiny(const Tiny &o) { o.use("copy"); TS().copies++; born(o.k); }
    Tiny &operator=(const Tiny &o) { use("assignment to"); o.use("assignment from"); TS().assigns++; k = o.k; return *this; }
    ~Tiny() {
        OutLib o; TrackedStat &s = TS(); Registry::E *e = s.reg.find((uintptr_t)this);
        if (!e) soft(C_LIFE, "destroy-not-alive", "destruction of an element that is not alive"); else s.reg.erase(e);
        s.live--; s.dtors++; k = (int)0xDEADBEEF;
    }
    bool operator==(const Tiny &o) const { use("compare"); o.use("compare"); TS().compares++; return k == o.k; }
    bool operator!=(const Tiny &o) const { return !(*this == o); }
    bool operator<(const Tiny &o) const { use("compare"); o.use("compare"); TS().compares++; return k < o.k; }
    bool operator>(const Tiny &o) const { return o < *this; }
};

struct Big {           // large trivially copyable element, detects torn copies
    int k; int w[37];
    int word(int i) const { return (int)((unsigned)k * 31u + (unsigned)i); }
    Big() : k(-1) { for (int i = 0; i < 37; i++) w[i] = word(i); }
    explicit Big(int key) : k(key) { for (int i = 0; i < 37; i++) w[i] = word(i); }
    bool ok() const { for (int i = 0; i < 37; i++) if (w[i] != word(i)) return false; return true; }
    bool operator==(const Big &o) const { return k == o.k; }
    bool operator!=(const Big &o) const { return k != o.k; }
    bool operator<(const Big &o) const { return k < o.k; }
    bool operator>(const Big &o) const { return k > o.k; }
};

static char g_ptr_base[4096];

// make/key: int <-> element.  norm(k): the key make(k) carries.
template <typename T> struct Val;
template <> struct Val<int> { static int make(int k) { return k; } static int key(const int &v) { return v; } static int norm(int k) { return k; } static const char *name() { return "int"; } };
// not every bit pattern is a bool: UBSan sees a read of one which was never written
template <> struct Val<bool> { static bool make(int k) { return k & 1; } static int key(const bool &v) { return v ? 1 : 0; } static int norm(int k) { return k & 1; } static const char *name() { return "bool"; } };
template <> struct Val<char> { static char make(int k) { return (char)norm(k); } static int key(const char &v) { return (signed char)v; } static int norm(int k) { return (signed char)k; } static const char *name() { return "char"; } };
template <> struct Val<short> { static short make(int k) { return (short)norm(k); } static int key(const short &v) { return v; } static int norm(int k) { return (short)k; } static const char *name() { return "short"; } };
template <> struct Val<long double> { static long double make(int k) { return k & 1 ? (long double)k + 0.5L : k; } static int key(const long double &v) { return (int)__builtin_floorl(v); } static int norm(int k) { return k; } static const char *name() { return "longdouble"; } };
template <> struct Val<double> { static double make(int k) { return k & 1 ? (double)k + 0.25 : k; } static int key(const double &v) { return (int)__builtin_floor(v); } static int norm(int k) { return k; } static const char *name() { return "double"; } };
template <> struct Val<const char *> { static const char *make(int k) { return norm(k) ? g_ptr_base + norm(k) : 0; } static int key(const char *const &v) { return v ? (int)(v - g_ptr_base) : 0; } static int norm(int k) { return (k % 4093 + 4093) % 4093; } static const char *name() { return "ptr"; } };
template <> struct Val<Tracked> { static Tracked make(int k) { return Tracked(k); } static int key(const Tracked &v) { v.use("read"); return v.k; } static int norm(int k) { return k; } static const char *name() { return "Tracked"; } };
template <> struct Val<Fat> { static Fat make(int k) { return Fat(k); } static int key(const Fat &v) { v.use("read"); return v.whole() ? v.k : -777776; } static int norm(int k) { return k; } static const char *name() { return "Fat"; } };
template <> struct Val<Tiny> { static Tiny make(int k) { return Tiny(k); } static int key(const Tiny &v) { v.use("read"); return v.k; } static int norm(int k) { return k; } static const char *name() { return "Tiny"; } };
template <> struct Val<Big> { static Big make(int k) { return Big(k); } static int key(const Big &v) { return v.ok() ? v.k : -777777; } static int norm(int k) { return k; } static const char *name() { return "Big"; } };

// values which a program might mistake for "nothing here", and extremes, among ordinary ones
inline int odd_value(unsigned w) { static const int v[] = { 0, -1, 2147480000, 0, -2147480000, -7 }; return v[w % 6]; }

// ---------------------------------------------------------------- run control
struct Opts {
    const char *only;      // configuration name filter (substring), or null
    long scale;            // percent of the configured case counts
    uint64_t seed;
    long only_case;        // replay a single case
    int shard, shards;
    unsigned opmask;
    int fault;             // inject this many allocation failures per case
    int depth_bonus;       // extra depth of exhaustive enumerations
    bool list;
    const char *suite;
    const char *hashes;    // file to write the hashes of the distinct histories to
};
inline Opts &O() { static Opts o; return o; }

enum OpGroup { OG_BASE = 1, OG_COPY = 2, OG_MOVE = 4, OG_ALIAS = 8, OG_ALL = 15 };

extern "C" inline void vh_on_timer(int) {
    printf("HANG config=%s\n", G().config ? G().config : "?");
    dump_trace(stdout, 60);
    _Exit(11);
}
inline void arm_case_timer() {
    struct itimerval tv; memset(&tv, 0, sizeof tv);
    tv.it_value.tv_sec = G().case_cpu_limit;
    setitimer(ITIMER_VIRTUAL, &tv, 0);
}
inline void on_death() { g_in_lib = 0; printf("DEATH\n"); dump_trace(stdout, 120); }
extern "C" inline void vh_on_signal(int sig, siginfo_t *si, void *) {
    g_in_lib = 0;
    printf("CRASH signal=%d addr=%p\n", sig, si->si_addr);
    dump_trace(stdout, 120);
    _Exit(13);
}

inline void begin_case(uint64_t seed, long no) {
    Global &g = G();
    g.case_seed = seed; g.case_no = no;
    g.trace.clear(); g.trace_dropped = 0;
    g.hist_hash = 1469598103934665603ull; g.hist_ops = g.hist_removals = 0;
    for (const char *p = g.config; *p; p++) g.hist_hash = mix(g.hist_hash, (unsigned char)*p);
    g_in_lib = 0;
    arm_case_timer();
}
inline void end_case() {
    Global &g = G();
    g.cases++;
    if (g.hist_ops >= 3 && g.hist_removals >= 1) {
        g.hist.push_back(g.hist_hash);
        if (g.nsamples < 4 && (g.nsamples == 0 || (g.hist.size() % 97) == 5)) {
            char *b = g.samples[g.nsamples++]; int n = snprintf(b, 1600, "%s:", g.config);
            for (size_t i = 0; i < g.trace.size() && i < 40 && n < 1400; i++)
                n += snprintf(b + n, 1600 - n, " %s(%ld,%ld,%ld)", g.trace[i].name, g.trace[i].a, g.trace[i].b, g.trace[i].c);
            if (g.trace.size() > 40) snprintf(b + n, 1600 - n, " ... %zu ops in all", g.trace.size() + g.trace_dropped);
        }
        if (g.hist.size() > (4u << 20)) { std::sort(g.hist.begin(), g.hist.end()); g.hist.erase(std::unique(g.hist.begin(), g.hist.end()), g.hist.end()); }
    }
}

static void (*g_case_begin_hook)(), (*g_residue_hook)();
// What must be true between cases: nothing is left behind.
inline void check_residue(const char *where) {
    if (TS().live != 0 || TS().reg.used != 0) {
        long l = TS().live; size_t r = TS().reg.used;
        TS().live = 0; TS().reg.clear();
        soft(C_LEAK | 0u, "element-leak", "%s: %ld more elements constructed than destroyed (%zu still registered) after everything was destroyed", where, l, r);
        if (l < 0) soft(C_LIFE, "over-destroyed", "%s: %ld elements destroyed more often than constructed", where, -l);
        else soft(C_LIFE, "element-leak", "%s: %ld elements never destroyed", where, l);
    }
    VaState &s = VA_();
    if (s.live_blocks != 0) {
        long b = s.live_blocks; long long n = s.live_bytes;
        s.reg.clear(); s.live_blocks = 0; s.live_bytes = 0;
        soft(C_LEAK, "memory-leak", "%s: %ld blocks / %lld bytes not returned to the allocator after everything was destroyed", where, b, n);
        soft(C_ALLOC, "memory-leak", "%s: %ld blocks / %lld bytes not returned to the allocator after everything was destroyed", where, b, n);
    }
    if (g_residue_hook) g_residue_hook();
}

// ---------------------------------------------------------------- fail-stop children
// A child process runs code which must stop by itself: trap on the null page or a failed assertion.
enum { X_STOP = 77, X_RETURNED = 76, X_VIOL = 10, X_ELSEWHERE = 78 };
static volatile int g_stop_ok;     // a stop is an acceptable outcome from now on
extern "C" inline void vh_child_segv(int sig, siginfo_t *si, void *) {
    if (!G().in_child) _Exit(13);
    bool nullpage = sig == SIGSEGV && (uintptr_t)si->si_addr < 65536;
    bool ok = g_stop_ok || VA_().failed;
    if (nullpage && ok) _Exit(X_STOP);
    char b[160]; int n = snprintf(b, sizeof b, "CHILD signal %d at address %p, stop %s\n", sig, si->si_addr, ok ? "expected" : "not expected");
    if (write(1, b, (size_t)n)) {}
    _Exit(X_ELSEWHERE);
}
inline void child_setup() {
    G().in_child = true;
    static char *alt = (char *)malloc(1 << 16);
    stack_t ss; memset(&ss, 0, sizeof ss); ss.ss_sp = alt; ss.ss_size = 1 << 16; sigaltstack(&ss, 0);
    struct sigaction sc; memset(&sc, 0, sizeof sc);
    sc.sa_sigaction = vh_child_segv; sc.sa_flags = SA_SIGINFO | SA_ONSTACK;
    sigaction(SIGSEGV, &sc, 0); sigaction(SIGBUS, &sc, 0);
    arm_case_timer();
}
inline int wait_child(pid_t p) {
    int st = 0; while (waitpid(p, &st, 0) < 0) {}
    G().forks++;
    if (WIFSIGNALED(st)) {   // abort() and trap instructions stop a program as well as the null page does
        int sg = WTERMSIG(st);
        return sg == SIGABRT || sg == SIGILL || sg == SIGTRAP ? X_STOP : 1000 + sg;
    }
    return WEXITSTATUS(st);
}
// fn must not return; what happened otherwise is reported as a violation
template <class Fn> inline void expect_stop(const char *key, Fn fn) {
    fflush(stdout); fflush(stderr);
    pid_t p = fork();
    if (p < 0) { fprintf(stderr, "harness: fork failed\n"); _Exit(3); }
    if (p == 0) {
        child_setup(); g_stop_ok = 1; G().enabled = 0;
        try { LIB(fn()); } catch (CaseAbort &) {}
        _Exit(X_RETURNED);
    }
    int rc = wait_child(p);
    G().checks++;
    if (rc == X_STOP) { G().stops++; return; }
    if (rc == X_RETURNED) viol(C_STOP, key, "%s: the program goes on", key);
    viol(C_STOP, key, "%s: the program ends in another way than by a null-page trap or a failed assertion (%d)", key, rc);
}

typedef void (*CaseFn)(Chooser &);
struct Config {
    const char *suite;       // logical group ("random", "exhaustive", "large", ...)
    const char *name;
    long cases;              // random cases at scale 100 (0: exhaustive)
    CaseFn fn;
    VaMode mode;
};
inline std::vector<Config> &configs() { static std::vector<Config> *c = new std::vector<Config>(); return *c; }
inline void add(const char *suite, const char *name, long cases, CaseFn fn, VaMode mode = VA_MALLOC) {
    Config c = { suite, name, cases, fn, mode };
    configs().push_back(c);
}

inline bool wants(const char *csv, const char *s) {
    if (!csv) return true;
    size_t n = strlen(s);
    for (const char *p = csv; (p = strstr(p, s)); p++)
        if ((p == csv || p[-1] == ',') && (p[n] == 0 || p[n] == ',')) return true;
    return false;
}

inline void run_one(const Config &c, Chooser &ch, uint64_t seed, long no) {
    begin_case(seed, no);
    va_reset(c.mode);
    if (g_case_begin_hook) g_case_begin_hook();
    bool aborted = false;
    try { c.fn(ch); }
    catch (CaseAbort &) { aborted = true; G().aborted++; g_in_lib = 0; }
    if (!aborted) check_residue("end of case");
    else { // state after an unrequested violation is not judged
        TS().reg.clear(); TS().live = 0;
        VA_().reg.clear(); VA_().live_blocks = 0; VA_().live_bytes = 0;
    }
    end_case();
}

inline void json_str(const char *s) {
    putchar('"');
    for (; *s; s++) { if (*s == '"' || *s == '\\') putchar('\\'); if ((unsigned char)*s >= 32) putchar(*s); }
    putchar('"');
}

// Runs one case again and again, each time with another allocation failing.
inline void run_fault(const Config &c, uint64_t seed, long no, int limit) {
    { Chooser ch; ch.start_random(seed); run_one(c, ch, seed, no); }
    long n = VA_().allocs; if (n <= 0) return;
    Rng r(seed ^ 0x5eed);
    for (int q = 0; q < limit && q < n; q++) {
        long at = n <= limit ? q : (long)(r.next() % (uint64_t)n);
        fflush(stdout); fflush(stderr);
        pid_t p = fork();
        if (p < 0) { fprintf(stderr, "harness: fork failed\n"); _Exit(3); }
        if (p == 0) {
            child_setup(); G().enabled = C_MODEL | C_LIFE | C_ALLOC;
            begin_case(seed, no); va_reset(c.mode); VA_().fail_at = at;
            Chooser ch; ch.start_random(seed);
            bool ab = false;
            try { c.fn(ch); } catch (CaseAbort &) { ab = true; }
            fflush(stdout);
            _Exit(ab ? X_ELSEWHERE : VA_().failed ? X_RETURNED : 75);
        }
        int rc = wait_child(p);
        G().faults++; G().checks++;
        op("fail_allocation", at, rc);
        if (rc == X_STOP) { G().stops++; continue; }
        if (rc == X_RETURNED) { G().survived++; continue; }     // went on with everything as specified
        if (rc == 75) continue;                                  // the failing allocation was not reached
        if (rc == 11) { printf("HANG config=%s\n", c.name); fflush(stdout); _Exit(11); }
        soft(C_STOP, "failed-allocation", "allocation %ld of case %ld fails: the program neither stops nor goes on correctly (%d)", at, no, rc);
    }
    end_case();
}

inline int vh_main(int argc, char **argv) {
    Opts &o = O();
    o.scale = 100; o.seed = 1; o.only_case = -1; o.shards = 1; o.opmask = OG_ALL;
    G().enabled = ~0u; G().case_cpu_limit = 60;
    for (int i = 1; i < argc; i++) {
        const char *a = argv[i]; const char *v = i + 1 < argc ? argv[i + 1] : "";
        if (!strcmp(a, "--classes")) { G().enabled = cls_parse(v); i++; }
        else if (!strcmp(a, "--suite")) { o.suite = v; i++; }
        else if (!strcmp(a, "--only")) { o.only = v; i++; }
        else if (!strcmp(a, "--scale")) { o.scale = atol(v); i++; }
        else if (!strcmp(a, "--seed")) { o.seed = strtoull(v, 0, 10); i++; }
        else if (!strcmp(a, "--case")) { o.only_case = atol(v); i++; }
        else if (!strcmp(a, "--shard")) { sscanf(v, "%d/%d", &o.shard, &o.shards); i++; }
        else if (!strcmp(a, "--ops")) { o.opmask = (unsigned)atoi(v); i++; }
        else if (!strcmp(a, "--depth")) { o.depth_bonus = atoi(v); i++; }
        else if (!strcmp(a, "--cpu")) { G().case_cpu_limit = atoi(v); i++; }
        else if (!strcmp(a, "--fault")) { o.fault = atoi(v); i++; }
        else if (!strcmp(a, "--hashes")) { o.hashes = v; i++; }
        else if (!strcmp(a, "--list")) { o.list = true; }
        else { fprintf(stderr, "unknown option %s\n", a); return 3; }
    }
    setvbuf(stdout, 0, _IOFBF, 1 << 16);
    struct sigaction sa; memset(&sa, 0, sizeof sa);
    sa.sa_handler = vh_on_timer; sigaction(SIGVTALRM, &sa, 0);
#if defined(VH_SAN)
    __sanitizer_set_death_callback(on_death);
#else
    { // crash reporting of builds without a sanitizer runtime
        static char *alt = (char *)malloc(1 << 16);
        stack_t ss; memset(&ss, 0, sizeof ss); ss.ss_sp = alt; ss.ss_size = 1 << 16; sigaltstack(&ss, 0);
        struct sigaction sc; memset(&sc, 0, sizeof sc);
        sc.sa_sigaction = vh_on_signal; sc.sa_flags = SA_SIGINFO | SA_ONSTACK;
        int sigs[] = { SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT };
        for (int s : sigs) sigaction(s, &sc, 0);
    }
#endif
    // random cases are split over shards by number, exhaustive configurations by position
    std::vector<Config> &cs = configs();
    long ran = 0, exidx = 0;
    for (size_t ci = 0; ci < cs.size(); ci++) {
        const Config &c = cs[ci];
        if (!wants(o.suite, c.suite)) continue;
        if (o.only && !strstr(c.name, o.only)) continue;
        if (o.list) { printf("%s %s %ld\n", c.suite, c.name, c.cases); continue; }
        G().config = c.name;
        ran++;
        if (c.cases == 0) {
            if (o.fault) continue;
            bool mine = (exidx++ % o.shards) == o.shard;
            if (!mine) continue;
            Chooser ch; ch.start_exhaustive();
            long no = 0;
            do { ch.rewind(); run_one(c, ch, 0, no++); } while (ch.advance());
            G().exhaustive_cases += no; G().exhaustive_done++;
            if (VA_().mode != VA_MALLOC) va_reset(VA_MALLOC);
        } else {
            long n = c.cases * o.scale / 100; if (n < 1) n = 1;
            uint64_t ch_seed = o.seed * 1000003ull + 17;
            for (const char *p = c.name; *p; p++) ch_seed = ch_seed * 131 + (unsigned char)*p;
            for (long k = 0; k < n; k++) {
                if (o.only_case >= 0 ? k != o.only_case : (k + (long)ci) % o.shards != o.shard) continue;
                Rng sr(ch_seed + (uint64_t)k * 0x9E3779B97F4A7C15ull);
                uint64_t seed = sr.next();
                if (o.fault) { run_fault(c, seed, k, o.fault); continue; }
                Chooser ch; ch.start_random(seed);
                run_one(c, ch, seed, k);
            }
        }
    }
    if (o.list) return 0;
    if (!ran) { fprintf(stderr, "harness: no configuration selected\n"); return 4; }
    Global &g = G();
    std::sort(g.hist.begin(), g.hist.end());
    size_t distinct = std::unique(g.hist.begin(), g.hist.end()) - g.hist.begin();
    if (o.hashes) { FILE *f = fopen(o.hashes, "wb"); if (f) { fwrite(&g.hist[0], sizeof(uint64_t), distinct, f); fclose(f); } }
    printf("STATS {\"configs\":%ld,\"cases\":%ld,\"ops\":%ld,\"checks\":%ld,\"distinct\":%zu,\"states\":%zu,\"aborted\":%ld,"
           "\"exhaustive_configs\":%ld,\"exhaustive_cases\":%ld,\"maxsize\":%ld,\"forks\":%ld,\"faults\":%ld,\"stops\":%ld,\"survived\":%ld,"
           "\"elements_constructed\":%ld,\"elements_copied\":%ld,\"allocations\":%ld,\"samples\":[",
           ran, g.cases, g.ops, g.checks, distinct, g.nstates, g.aborted, g.exhaustive_done, g.exhaustive_cases, g.maxsize,
           g.forks, g.faults, g.stops, g.survived, TS().ctors, TS().copies, VA_().total);
    for (int i = 0; i < g.nsamples; i++) { if (i) putchar(','); json_str(g.samples[i]); }
    printf("],\"ignored\":{");
    bool first = true;
    for (int i = 0; i < 14; i++) if (g.ignored[i]) { printf("%s\"%s\":%ld", first ? "" : ",", cls_name(1u << i), g.ignored[i]); first = false; }
    printf("}}\n");
    fflush(stdout);
    _Exit(0);
}

} // namespace vh

extern "C" void __assert_fail(const char *expr, const char *file, unsigned line, const char *) noexcept {
    using namespace vh;
    g_in_lib = 0;
    if (G().in_child && (g_stop_ok || VA_().failed)) _Exit(X_STOP);
    const char *b = strrchr(file, '/');
    printf("%sASSERT %s:%u %s config=%s\n", G().in_child ? "CHILD" : "", b ? b + 1 : file, line, expr, G().config ? G().config : "?");
    dump_trace(stdout, 120);
    _Exit(14);
}
