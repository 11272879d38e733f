// Harness of id3v2lib: MODE --seed N --from A --count N --dir DIR [--stats FILE] [--dict FILE]
#include "modes2.h"
extern bool g_outcomes;
#include "oom.h"
#ifdef COST
#include "cost.h"
#endif
#include <sys/mman.h>
#include <sys/resource.h>

const char* g_mode;
u64 g_seed, g_case;
volatile bool g_finished;
char g_dir[512];
std::vector<u32> g_dict, g_dict_ids;
std::vector<Bytes> g_dict_strings;
thread_local u32 g_len_budget = 200000000;
int g_saved_stderr = -1;
thread_local bool t_quiet;
int g_stale_errno;
bool g_outcomes;
u8 g_fill;

// ---- statistics ------------------------------------------------------------------------------
struct Counter { char name[64]; u64 v; bool is_max; };
static Counter g_counters[256];
static int g_ncounters;
static Counter* counter(const char* name, bool is_max)
{
    for (int i = 0; i < g_ncounters; i++) if (strcmp(g_counters[i].name, name) == 0) return &g_counters[i];
    if (g_ncounters == 256) return &g_counters[255];
    Counter* c = &g_counters[g_ncounters++];
    snprintf(c->name, sizeof c->name, "%s", name);
    c->is_max = is_max;
    return c;
}
void count(const char* name, u64 n) { if (!t_quiet) counter(name, false)->v += n; }
void count_max(const char* name, u64 n) { if (t_quiet) return; Counter* c = counter(name, true); if (n > c->v) c->v = n; }
static char g_samples[16][800];
static int g_nsamples;
void sample(const char* fmt, ...)
{
    if (t_quiet || g_nsamples == 16) return;
    va_list a;
    va_start(a, fmt);
    vsnprintf(g_samples[g_nsamples++], sizeof g_samples[0], fmt, a);
    va_end(a);
}
static u64* g_hashes;
static size_t g_nhashes, g_cap_hashes;
void nontrivial(u64 h)
{
    if (t_quiet || g_nhashes == g_cap_hashes) return;
    g_hashes[g_nhashes++] = h;
}

// ---- verdicts --------------------------------------------------------------------------------
void fail(const char* key, const char* fmt, ...)
{
    char m[2000];
    va_list a;
    va_start(a, fmt);
    vsnprintf(m, sizeof m, fmt, a);
    va_end(a);
    g_finished = true;
    faults_disarm();
    if (g_saved_stderr >= 0) dup2(g_saved_stderr, 2);
    if (strcmp(key, "HARNESS") == 0) { fprintf(stderr, "HARNESS-ERROR seed=%llu case=%llu: %s\n", (unsigned long long) g_seed, (unsigned long long) g_case, m); _exit(78); }
    fprintf(stderr, "ORACLE-FAIL property=%s key=%s seed=%llu case=%llu: %s\n", g_mode, key, (unsigned long long) g_seed, (unsigned long long) g_case, m);
#ifdef FUZZ
    abort();
#endif
    _exit(77);
}
static char g_findings[64][120];
static int g_nfindings;
void finding(const char* key, const char* fmt, ...)
{
    count("findings");
    for (int i = 0; i < g_nfindings; i++) if (strcmp(g_findings[i], key) == 0) return;
    if (g_nfindings == 64) return;
    snprintf(g_findings[g_nfindings++], 120, "%s", key);
    char m[1200];
    va_list a;
    va_start(a, fmt);
    vsnprintf(m, sizeof m, fmt, a);
    va_end(a);
    printf("FINDING property=%s key=%s seed=%llu case=%llu: %s\n", g_mode, key, (unsigned long long) g_seed, (unsigned long long) g_case, m);
    fflush(stdout);
}
static void at_exit()
{
    if (!g_finished) fail("exit", "the library ended the process");
}

// ---- executed blocks -------------------------------------------------------------------------
static u64 g_steps;
u64 g_step_limit;
bool g_have_steps;
static u32 g_nguards;
static u8 g_edges[8192];
static const u64 HANG = 6000000000ull;
static u64 g_case_steps;
void steps_reset() { g_case_steps += g_steps; g_steps = 0; }
u64 steps_now() { return g_steps; }
__attribute__((no_sanitize("address", "memory", "undefined"))) void steps_add(u64 n)
{
    g_steps += n;
    if (g_step_limit && g_steps > g_step_limit) { u64 l = g_step_limit; g_step_limit = 0; fail("cost", "more than %llu blocks executed", (unsigned long long) l); }
    if (g_steps > HANG) { g_steps = 0; fail("hang", "more than %llu blocks executed in one case", (unsigned long long) HANG); }
}
#ifndef FUZZ // libFuzzer has its own
extern "C" __attribute__((no_sanitize("address", "memory", "undefined"))) void __sanitizer_cov_trace_pc_guard(uint32_t* guard)
{
    g_edges[*guard & 8191] = 1;
    steps_add(1);
}
extern "C" __attribute__((no_sanitize("address", "memory", "undefined"))) void __sanitizer_cov_trace_pc_guard_init(uint32_t* start, uint32_t* stop)
{
    if (start == stop || *start) return;
    g_have_steps = true;
    for (uint32_t* x = start; x < stop; x++) *x = ++g_nguards;
}
#endif

// ---- allocation ledger -----------------------------------------------------------------------
Ledger g_ledger;
bool g_have_ledger;
extern "C" int __sanitizer_install_malloc_and_free_hooks(void (*)(const volatile void*, size_t), void (*)(const volatile void*)) __attribute__((weak));
static const size_t TABLE = 1 << 23;
static struct { const volatile void* p; size_t n; } g_table[TABLE]; // open addressing, p == (void*) 1: deleted
static u32 g_used[TABLE];
static size_t g_nused;
static inline size_t slot(const volatile void* p) { return (size_t) (mix((u64) (uintptr_t) p) & (TABLE - 1)); }
__attribute__((no_sanitize("address", "memory"))) static void on_malloc(const volatile void* p, size_t n)
{
    if (!g_ledger.on || p == NULL) return;
    g_ledger.blocks++;
    g_ledger.bytes += n;
    size_t i = slot(p);
    while (g_table[i].p && g_table[i].p != (void*) 1) i = (i + 1) & (TABLE - 1);
    if (!g_table[i].p)
    {
        if (g_nused >= TABLE - TABLE / 4) return; // full, after six million different addresses: this block is not followed
        g_used[g_nused++] = (u32) i;
    }
    g_table[i].p = p;
    g_table[i].n = n;
    g_ledger.live++;
    g_ledger.live_bytes += (long) n;
}
__attribute__((no_sanitize("address", "memory"))) static void on_free(const volatile void* p)
{
    if (!g_ledger.on || p == NULL) return;
    for (size_t i = slot(p); g_table[i].p; i = (i + 1) & (TABLE - 1))
    {
        if (g_table[i].p != p) continue;
        g_table[i].p = (void*) 1;
        g_ledger.live--;
        g_ledger.live_bytes -= (long) g_table[i].n;
        return;
    }
}
void ledger_start()
{
    for (size_t i = 0; i < g_nused; i++) g_table[g_used[i]].p = NULL;
    g_nused = 0;
    memset(&g_ledger, 0, sizeof g_ledger);
    g_ledger.on = g_have_ledger;
}
void ledger_stop() { g_ledger.on = false; }

// ---- filled memory ---------------------------------------------------------------------------
// In the "fill" variant the library's allocations are redirected here: new and freed memory has a
// content of the case's choice.
u64 g_world;
#ifdef FILL
#include <malloc.h>
extern "C" void* fill_malloc(size_t n)
{
    void* p = malloc(n);
    if (p) memset(p, g_fill, malloc_usable_size(p));
    return p;
}
extern "C" void fill_free(void* p)
{
    if (p) memset(p, g_fill ^ 0x3C, malloc_usable_size(p));
    free(p);
}
extern "C" void* fill_realloc(void* q, size_t n)
{
    if (q == NULL) return fill_malloc(n);
    size_t old = malloc_usable_size(q);
    void* p = fill_malloc(n ? n : 1);
    if (!p) return NULL;
    memcpy(p, q, old < n ? old : n);
    fill_free(q);
    return p;
}
// The time, the process and the user
#include <sys/time.h>
static time_t world_time(time_t now)
{
    static const long long times[] = {0, 1, 86399, 951782400, 1078012799, 0x7FFFFFFF, 0x80000000LL, 0x100000000LL, 253402300799LL, -1};
    u64 k = mix(g_world) % 20;
    return k < 10 ? (time_t) times[k] : now + (time_t) (mix(g_world + 1) % 400000000);
}
extern "C" time_t fill_time(time_t* t) { time_t now = time(NULL); if (g_world) now = world_time(now); if (t) *t = now; return now; }
extern "C" int fill_gettimeofday(struct timeval* tv, void* tz) { int rc = gettimeofday(tv, NULL); if (g_world && tv) { tv->tv_sec = world_time(tv->tv_sec); tv->tv_usec = (suseconds_t) (mix(g_world + 2) % 1000000); } return rc; }
extern "C" int fill_clock_gettime(clockid_t c, struct timespec* ts) { int rc = clock_gettime(c, ts); if (g_world && ts) { ts->tv_sec = world_time(ts->tv_sec); ts->tv_nsec = (long) (mix(g_world + 3) % 1000000000); } return rc; }
extern "C" clock_t fill_clock(void) { return g_world ? (clock_t) mix(g_world + 4) : clock(); }
extern "C" pid_t fill_getpid(void) { return g_world ? (pid_t) (2 + mix(g_world + 5) % 4000000) : getpid(); }
extern "C" pid_t fill_getppid(void) { return g_world ? (pid_t) (1 + mix(g_world + 6) % 4000000) : getppid(); }
extern "C" pid_t fill_gettid(void) { return g_world ? (pid_t) (2 + mix(g_world + 7) % 4000000) : gettid(); }
extern "C" uid_t fill_getuid(void) { return g_world ? (uid_t) (mix(g_world + 8) % 3 * 1000) : getuid(); }
extern "C" uid_t fill_geteuid(void) { return g_world ? (uid_t) (mix(g_world + 9) % 3 * 1000) : geteuid(); }
extern "C" gid_t fill_getgid(void) { return g_world ? (gid_t) (mix(g_world + 10) % 3 * 1000) : getgid(); }
extern "C" gid_t fill_getegid(void) { return g_world ? (gid_t) (mix(g_world + 11) % 3 * 1000) : getegid(); }
extern "C" int fill_isatty(int fd) { return g_world ? (int) (mix(g_world + 12) & 1) : isatty(fd); }
#endif

// ---- failing allocations -----------------------------------------------------------------------
bool g_oom_on, g_oom_all, g_oom_hit;
long g_oom_at, g_oom_seen;
size_t g_oom_size;
#ifdef OOM
static bool oom_fails(size_t n)
{
    if (!g_oom_on) return false;
    long i = g_oom_seen++;
    if (g_oom_at < 0 || (g_oom_all ? i < g_oom_at : i != g_oom_at)) return false;
    if (!g_oom_hit) g_oom_size = n;
    g_oom_hit = true;
    errno = ENOMEM;
    return true;
}
extern "C" void* oom_malloc(size_t n) { return oom_fails(n) ? NULL : malloc(n); }
extern "C" void* oom_calloc(size_t a, size_t b) { return oom_fails(a * b) ? NULL : calloc(a, b); }
extern "C" void* oom_realloc(void* p, size_t n) { return oom_fails(n) ? NULL : realloc(p, n); }
extern "C" char* oom_strdup(const char* s) { return oom_fails(strlen(s) + 1) ? NULL : strdup(s); }
extern "C" char* oom_strndup(const char* s, size_t n) { return oom_fails(n + 1) ? NULL : strndup(s, n); }
#endif

// ---- main ------------------------------------------------------------------------------------
// Not a check: writes one input per case, as a seed corpus for the fuzzer
static void run_SEEDS(Rng& r)
{
    char name[40];
    snprintf(name, sizeof name, "seed-%llu", (unsigned long long) g_case);
    Bytes b;
    if (g_case & 1) b = gen_hostile(r);
    else { b = gen_tag(r, SMALL).encode(); put(b, gen_blob(r, r.below(40))); }
    if (b.size() <= 8192) { char p[600]; path_in(p, sizeof p, name); write_file(p, b); }
}
typedef void (*Runner)(Rng&);
static const struct { const char* name; Runner run; } MODES[] = {
    {"SEEDS", run_SEEDS}, {"C01", run_C01}, {"C02", run_C02}, {"C02B", run_C02B}, {"C09B", run_C09B}, {"C03", run_C03}, {"C04", run_C04}, {"C05", run_C05}, {"C06", run_C06}, {"C07", run_C07}, {"C07R", run_C07R}, {"C08", run_C08}, {"C08F", run_C08F}, {"C09", run_C09}, {"C10", run_C10},
    {"C11", run_C11}, {"C12", run_C12}, {"C13", run_C13}, {"C14", run_C14}, {"C15", run_C15}, {"C16", run_C16}, {"C16R", run_C16R}, {"C17", run_C17}, {"C18", run_C18}, {"C19", run_C19}, {"C20", run_C20}, {"C21", run_C21}, {"C22", run_C22}, {"C23", run_C23}, {"C24", run_C24}, {"C25", run_C25}};

static void json_string(FILE* f, const char* s)
{
    fputc('"', f);
    for (; *s; s++)
    {
        u8 c = (u8) *s;
        if (c == '"' || c == '\\') fprintf(f, "\\%c", c);
        else if (c < 0x20 || c >= 0x7F) fprintf(f, "\\u%04x", c);
        else fputc(c, f);
    }
    fputc('"', f);
}

#ifndef FUZZ
int main(int argc, char** argv)
{
    Runner run = NULL;
    u64 from = 0, n = 1;
    const char *stats = NULL, *dict = NULL;
    if (argc < 2) { fprintf(stderr, "usage: MODE --seed N --from A --count N --dir DIR\n"); return 78; }
    g_mode = argv[1];
    for (size_t i = 0; i < sizeof MODES / sizeof *MODES; i++) if (strcmp(MODES[i].name, g_mode) == 0) run = MODES[i].run;
    for (int i = 2; i + 1 < argc; i += 2)
    {
        if (!strcmp(argv[i], "--seed")) g_seed = strtoull(argv[i + 1], NULL, 10);
        if (!strcmp(argv[i], "--from")) from = strtoull(argv[i + 1], NULL, 10);
        if (!strcmp(argv[i], "--count")) n = strtoull(argv[i + 1], NULL, 10);
        if (!strcmp(argv[i], "--dir")) snprintf(g_dir, sizeof g_dir, "%s", argv[i + 1]);
        if (!strcmp(argv[i], "--stats")) stats = argv[i + 1];
        if (!strcmp(argv[i], "--dict")) dict = argv[i + 1];
        if (!strcmp(argv[i], "--outcomes")) g_outcomes = true;
    }
    static const struct { const char* mode; u32 every; } crowded[] = {{"C02", 3000}, {"C03", 1500}, {"C04", 2000}, {"C05", 3000}, {"C06", 500}, {"C07", 2000}, {"C09", 3000}, {"C10", 2000}, {"C11", 3000}, {"C13", 3000}, {"C14", 3000}, {"C15", 500}, {"C16", 800}};
    g_odd_flags = strcmp(g_mode, "C02") == 0 || strcmp(g_mode, "C07") == 0 || strcmp(g_mode, "C09") == 0;
    for (size_t i = 0; i < sizeof crowded / sizeof *crowded; i++) if (strcmp(crowded[i].mode, g_mode) == 0) g_crowd = crowded[i].every;
    if (!run || !g_dir[0]) { fprintf(stderr, "HARNESS-ERROR unknown mode or no directory\n"); return 78; }
    if (dict)
    {
        FILE* f = fopen(dict, "r");
        char line[512];
        while (f && fgets(line, sizeof line, f))
        {
            if (line[0] == 'n') g_dict.push_back((u32) strtoul(line + 2, NULL, 10));
            if (line[0] == 'i') g_dict_ids.push_back((u32) (u8) line[2] << 24 | (u32) (u8) line[3] << 16 | (u32) (u8) line[4] << 8 | (u8) line[5]);
            if (line[0] == 's')
            {
                Bytes b;
                unsigned v;
                for (const char* p = line + 2; sscanf(p, "%2x", &v) == 1; p += 2) put8(b, v);
                if (!b.empty()) g_dict_strings.push_back(b);
            }
        }
        if (f) fclose(f);
    }
    if (__sanitizer_install_malloc_and_free_hooks) g_have_ledger = __sanitizer_install_malloc_and_free_hooks(on_malloc, on_free) != 0;
    g_cap_hashes = 2000000;
    g_hashes = (u64*) mmap(NULL, g_cap_hashes * 8, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    if (g_hashes == MAP_FAILED) harness_error("mmap");
    volatile u64* status = NULL; // the case being run, for the driver to find after a crash
    if (stats)
    {
        char p[600];
        snprintf(p, sizeof p, "%s.case", stats);
        int fd = open(p, O_RDWR | O_CREAT | O_TRUNC, 0644);
        if (fd < 0 || ftruncate(fd, 16) != 0) harness_error("status file");
        status = (volatile u64*) mmap(NULL, 16, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
        if (status == MAP_FAILED) harness_error("mmap");
        close(fd);
    }
    atexit(at_exit);
    for (u64 i = from; i < from + n; i++)
    {
        g_case = i;
        if (status) { status[0] = i; status[1] = 1; }
        steps_reset();
        g_step_limit = 0;
        g_len_budget = 200000000;
        static const int stale_errors[] = {0, 0, 0, EINTR, ENOMEM, ENOENT, ERANGE, EIO};
        g_stale_errno = strcmp(g_mode, "C23") == 0 ? 0 : stale_errors[mix(i) % 8];
        Rng r(mix(g_seed * 0x9E3779B97F4A7C15ull + 0x51ed27) ^ mix(i * 2 + 1) ^ hash_bytes(g_mode, 3));
        run(r);
    }
    steps_reset();
    g_finished = true;
    if (stats)
    {
        if (status) status[1] = 2;
        FILE* f = fopen(stats, "w");
        if (!f) harness_error("stats");
        fprintf(f, "{\"cases\": %llu, \"blocks\": %llu, \"counters\": {", (unsigned long long) n, (unsigned long long) g_case_steps);
        for (int i = 0; i < g_ncounters; i++) { fprintf(f, "%s", i ? ", " : ""); json_string(f, g_counters[i].name); fprintf(f, ": [%llu, %d]", (unsigned long long) g_counters[i].v, g_counters[i].is_max); }
        fprintf(f, "}, \"samples\": [");
        for (int i = 0; i < g_nsamples; i++) { fprintf(f, "%s", i ? ", " : ""); json_string(f, g_samples[i]); }
        fprintf(f, "], \"guards\": %u, \"edges\": \"", g_nguards);
        for (u32 i = 1; i <= g_nguards && i < 8192; i++) fputc(g_edges[i] ? '1' : '0', f);
        fprintf(f, "\"}\n");
        fclose(f);
        char p[600];
        snprintf(p, sizeof p, "%s.hashes", stats);
        f = fopen(p, "w");
        if (!f) harness_error("hashes");
        fwrite(g_hashes, 8, g_nhashes, f);
        fclose(f);
    }
    return 0;
}
#else
extern "C" int LLVMFuzzerTestOneInput(const uint8_t* data, size_t size)
{
    static bool init;
    if (!init)
    {
        init = true;
        g_mode = getenv("FUZZ_MODE") && strcmp(getenv("FUZZ_MODE"), "C14") == 0 ? "C14" : "C01";
        const char* d = getenv("FUZZ_DIR");
        snprintf(g_dir, sizeof g_dir, "%s", d ? d : "/dev/shm");
        g_cap_hashes = 0;
        g_finished = true;
    }
    Bytes in(data, data + size);
    Rng r(hash_bytes(in));
    g_nsamples = 16;
    if (strcmp(g_mode, "C14") == 0) agree_case(r, in);
    else hostile_case(r, in, "memory-safety");
    return 0;
}
#endif
