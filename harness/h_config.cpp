// The same histories in every configuration: what a program observes must not depend on the compiler, the language
// standard, the optimisation level, assertions, logging, or where memory comes from. Prints one digest per history;
// bin/check.py compares the digests of all configurations. Operations alternate between two translation units.
#define VH_NS unit1
#include "config_ops.hpp"
#include <cstdio>
#include <cstdlib>
#include <unistd.h>
#include <fcntl.h>
#include <sys/resource.h>
KindOps kind_of_unit2(int);
void statics_of_unit2();
thread_local long Own::live = 0;
static uint64_t g_digest = 0; static long g_checks = 0; static bool g_text = false; static int g_out = 1;
void Sink::put(const char *what, long v) {
    g_checks++;
    for (const char *s = what; *s; s++) g_digest = (g_digest ^ (unsigned char)*s) * 1099511628211ull;
    g_digest = (g_digest ^ (uint64_t)v) * 1099511628211ull; g_digest ^= g_digest >> 29;
    if (g_text) dprintf(g_out, " %s=%ld", what, v);
}
#ifdef ENABLE_SMA
static int pool_free() { return dstruct::port::DefaultSMA::free_mem_size(); }
#else
static int pool_free() { return 0; }
#endif
static long g_live0; static int g_free0;
static int fail(const char *kind, long no, const char *what, long a, long b) { dprintf(g_out, "VIOL class=model key=%s config=%s case=%ld: %ld, expected %ld\n", what, kind, no, a, b); _Exit(10); }

int main(int argc, char **argv) {
    long scale = 100, only = -1; int okind = -1; unsigned long long seed = 1; int shard = 0, shards = 1; const char *hashes = 0;
    for (int i = 1; i + 1 < argc; i += 2) { const char *a = argv[i], *v = argv[i + 1];
        if (!strcmp(a, "--scale")) scale = atol(v); else if (!strcmp(a, "--seed")) seed = strtoull(v, 0, 10); else if (!strcmp(a, "--shard")) sscanf(v, "%d/%d", &shard, &shards);
        else if (!strcmp(a, "--cpu")) { struct rlimit l = { (rlim_t)atol(v), (rlim_t)atol(v) + 2 }; setrlimit(RLIMIT_CPU, &l); } else if (!strcmp(a, "--kind")) okind = atoi(v); else if (!strcmp(a, "--case")) { only = atol(v); g_text = true; } else if (!strcmp(a, "--hashes")) hashes = v; }
    // logging configurations write to stdout: the results go elsewhere
    g_out = dup(1); fflush(stdout); dprintf(g_out, "\n"); int nul = open("/dev/null", O_WRONLY); dup2(nul, 1);
    long cases = 0, nops = 0; FILE *hf = hashes ? fopen(hashes, "wb") : 0;
    if (okind < 0) { unit1::early.look(); statics_of_unit2(); unit1::statics().look(); dprintf(g_out, "DIGEST statics 0 %016llx\n", (unsigned long long)g_digest); }
    g_live0 = Own::live; g_free0 = pool_free();
    for (int k = 0; k < unit1::NK; k++) {
        if (okind >= 0 && k != okind) continue;
        KindOps u[2] = { unit1::kind(k), kind_of_unit2(k) };
        if (u[0].size != u[1].size) fail(u[0].name, 0, "size", (long)u[0].size, (long)u[1].size);
        void *obj[2] = { malloc(u[0].size), malloc(u[0].size) };
        for (long c = 0; c < 40 * scale / 100; c++) {
            if ((only >= 0 && c != only) || (c + k) % shards != shard) continue;
            Lcg r = { seed * 7919 + (uint64_t)k * 1009 + (uint64_t)c }; r.next(2); r.next(2);
            g_digest = 14695981039346656037ull; uint64_t hist = (uint64_t)k + 1;
            for (int j = 0; j < 2; j++) u[r.next(2)].make(obj[j]);
            int n = 20 + (int)r.next(120);
            for (int s = 0; s < n; s++) {
                unsigned w = r.next(40); KindOps &o = u[r.next(2)]; int i = (int)r.next(2), x = (int)r.next(1000); unsigned op = r.next(10); if (r.next(5) == 0) op = 10 + r.next(6);
                if ((s / 25) % 2 == 0 && op >= 5 && op < 10 && r.next(2)) op = r.next(5);       // phases of growth
                if (g_text) dprintf(g_out, "\n%s unit%d object %d op %u arg %d:", u[0].name, &o == u ? 1 : 2, i, w < 3 ? 100 + w : op, x);
                if (w == 0) o.copy(obj[i], obj[1 - i]); else if (w == 1) o.move(obj[i], obj[1 - i]);
                else if (w == 2) { o.kill(obj[i]); u[r.next(2)].make(obj[i]); }
                else o.step(obj[i], op, x);
                Sink::put("live", Own::live - g_live0 < 0); hist = (hist ^ (w < 3 ? 100 + w : op * 1024 + (unsigned)x) ^ (unsigned)i << 20) * 1099511628211ull; nops++;
            }
            for (int j = 0; j < 2; j++) u[r.next(2)].kill(obj[j]);
            if (Own::live != g_live0) fail(u[0].name, c, "elements-alive-at-the-end", Own::live, g_live0);
            if (pool_free() != g_free0) fail(u[0].name, c, "pool-at-the-end", pool_free(), g_free0);
            dprintf(g_out, "%sDIGEST %d.%s %ld %016llx\n", g_text ? "\n" : "", k, u[0].name, c, (unsigned long long)g_digest);
            if (hf) fwrite(&hist, 8, 1, hf);
            cases++;
        }
        free(obj[0]); free(obj[1]);
    }
    if (hf) fclose(hf);
    dprintf(g_out, "STATS {\"configs\":%d,\"cases\":%ld,\"ops\":%ld,\"checks\":%ld,\"distinct\":%ld,\"states\":0,\"maxsize\":0,\"samples\":[\"%ld histories over %d kinds of objects, alternating between two translation units\"],\"ignored\":{}}\n", unit1::NK, cases, nops, g_checks, cases, cases, unit1::NK);
    return 0;
}
