// Shared helpers of the harness. Only header-only parts of the C++ library are used (vector,
// algorithm), so that the MemorySanitizer build has no uninstrumented C++ code in it.
#pragma once
#include <algorithm>
#include <errno.h>
#include <fcntl.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string>
#include <string.h>
#include <sys/stat.h>
#include <unistd.h>
#include <vector>

typedef uint8_t u8;
typedef uint32_t u32;
typedef uint64_t u64;
typedef std::vector<u8> Bytes;

// ---- run state -------------------------------------------------------------------------------
extern const char* g_mode;   // property under check
extern u64 g_seed, g_case;
extern volatile bool g_finished;
[[noreturn]] void fail(const char* key, const char* fmt, ...) __attribute__((format(printf, 2, 3)));
void finding(const char* key, const char* fmt, ...) __attribute__((format(printf, 2, 3)));
void count(const char* name, u64 n = 1);
void count_max(const char* name, u64 n);
void sample(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
void nontrivial(u64 hash); // this case was non-trivial, and this identifies its input
void steps_reset();
u64 steps_now();
extern u64 g_step_limit;

#define CHECK(cond, key, ...) do { if (!(cond)) fail(key, __VA_ARGS__); } while (0)

// ---- randomness ------------------------------------------------------------------------------
static inline u64 mix(u64 z)
{
    z += 0x9E3779B97F4A7C15ull;
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
}
struct Rng
{
    u64 s;
    explicit Rng(u64 seed) : s(mix(seed)) {}
    u64 next() { s += 0x9E3779B97F4A7C15ull; return mix(s); }
    u32 below(u32 n) { return n ? (u32) (next() % n) : 0; }
    int range(int a, int b) { return a + (int) below((u32) (b - a + 1)); } // inclusive
    bool chance(u32 num, u32 den) { return below(den) < num; }
    u8 byte() { return (u8) next(); }
    u32 pick_index(const std::vector<u32>& v) { return v[below((u32) v.size())]; }
    template <class T, size_t N> const T& pick(const T (&a)[N]) { return a[below(N)]; }
};

// ---- bytes -----------------------------------------------------------------------------------
static inline void put(Bytes& b, const void* p, size_t n)
{
    const u8* q = (const u8*) p;
    b.insert(b.end(), q, q + n);
}
static inline void put(Bytes& b, const Bytes& o) { b.insert(b.end(), o.begin(), o.end()); }
static inline void put8(Bytes& b, u32 v) { b.push_back((u8) v); }
static inline void put32(Bytes& b, u32 v)
{
    for (int i = 24; i >= 0; i -= 8) b.push_back((u8) (v >> i));
}
static inline void putsync(Bytes& b, u32 v)
{
    for (int i = 21; i >= 0; i -= 7) b.push_back((u8) ((v >> i) & 0x7F));
}
static inline u64 hash_bytes(const void* p, size_t n, u64 h = 0xcbf29ce484222325ull)
{
    const u8* q = (const u8*) p;
    for (size_t i = 0; i < n; i++) h = (h ^ q[i]) * 0x100000001b3ull;
    return mix(h ^ n);
}
static inline u64 hash_bytes(const Bytes& b, u64 h = 0xcbf29ce484222325ull)
{
    return hash_bytes(b.data(), b.size(), h);
}
static inline size_t first_diff(const Bytes& a, const Bytes& b)
{
    size_t n = std::min(a.size(), b.size());
    for (size_t i = 0; i < n; i++) if (a[i] != b[i]) return i;
    return n;
}
struct Hex // short printable form of some bytes
{
    char s[200];
    Hex(const Bytes& b, size_t from = 0)
    {
        size_t k = 0;
        for (size_t i = from; i < b.size() && k < 180; i++) k += (size_t) snprintf(s + k, sizeof s - k, "%02x", b[i]);
        if (from >= b.size()) snprintf(s, sizeof s, "(empty)");
    }
};

// An exactly sized heap copy that the sanitizer can watch; scribbled over when destroyed.
struct HeapCopy
{
    char* p;
    size_t n;
    explicit HeapCopy(const Bytes& b) : p((char*) malloc(b.size() ? b.size() : 1)), n(b.size()) { if (n) memcpy(p, b.data(), n); }
    HeapCopy(const HeapCopy&) = delete;
    void destroy() { if (p) { memset(p, 0xDD, n); free(p); p = NULL; } }
    ~HeapCopy() { destroy(); }
    operator const char*() const { return p; }
};

// ---- files -----------------------------------------------------------------------------------
extern char g_dir[512]; // scratch directory of this process
static inline void path_in(char* out, size_t n, const char* name) { snprintf(out, n, "%s/%s", g_dir, name); }
static inline void harness_error(const char* what)
{
    fprintf(stderr, "HARNESS-ERROR %s: %s\n", what, strerror(errno));
    g_finished = true;
    _exit(78);
}
static inline void write_file(const char* path, const Bytes& b)
{
    int fd = open(path, O_WRONLY | O_CREAT | O_TRUNC, 0644);
    if (fd < 0) harness_error("write_file open");
    size_t o = 0;
    while (o < b.size())
    {
        ssize_t r = write(fd, b.data() + o, b.size() - o);
        if (r <= 0) harness_error("write_file write");
        o += (size_t) r;
    }
    close(fd);
}
static inline bool read_file(const char* path, Bytes& b)
{
    b.clear();
    int fd = open(path, O_RDONLY);
    if (fd < 0) return false;
    struct stat st;
    if (fstat(fd, &st) != 0 || !S_ISREG(st.st_mode)) { close(fd); return false; }
    b.resize((size_t) st.st_size);
    size_t o = 0;
    while (o < b.size())
    {
        ssize_t r = read(fd, b.data() + o, b.size() - o);
        if (r <= 0) break;
        o += (size_t) r;
    }
    b.resize(o);
    close(fd);
    return true;
}
