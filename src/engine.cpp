#include "engine.hpp"
#include <new>
#include <cstdlib>
#include <exception>
#include <typeinfo>
#include <csignal>
#include <cerrno>
#include <unistd.h>
#include <fcntl.h>
#include <time.h>
#include <malloc.h>
#include <sys/mman.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <sys/resource.h>
#ifdef ENGINE_PEERS
#include <dirent.h>
#endif

namespace eng
{
// ---------------------------------------------------------------- memory accounting
static Alloc g_alloc{};
std::size_t alloc_cap = std::size_t{1} << 30;
std::size_t alloc_fail_in;
Alloc & alloc() { return g_alloc; }
void alloc_reset_peaks()
{
    g_alloc.max_request = 0;
    g_alloc.total_bytes = 0;
    g_alloc.peak_bytes = g_alloc.live_bytes;
}

#ifndef ENGINE_THREADS // no accounting where several threads run
static void * do_new(std::size_t n)
{
    if (n > g_alloc.max_request) g_alloc.max_request = n;
    if (n > alloc_cap) throw std::bad_alloc();
    if (alloc_fail_in && !--alloc_fail_in) throw std::bad_alloc();
    void * p = std::malloc(n ? n : 1);
    if (!p) throw std::bad_alloc();
    auto real = malloc_usable_size(p);
    // Deterministic garbage, so that a read of uninitialized memory replays.
    std::memset(p, 0xa5, n < 4096 ? n : 4096);
    g_alloc.live_count++;
    g_alloc.live_bytes += real;
    g_alloc.total_bytes += n;
    if (g_alloc.live_bytes > g_alloc.peak_bytes) g_alloc.peak_bytes = g_alloc.live_bytes;
    return p;
}
static void do_delete(void * p)
{
    if (!p) return;
    g_alloc.live_count--;
    g_alloc.live_bytes -= malloc_usable_size(p);
    std::free(p);
}
#endif

// ---------------------------------------------------------------- registry
struct Entry { const char * name; CaseFn fn; const void * arg; unsigned weight; };
static Entry g_entries[4096];
static unsigned g_count;
static unsigned g_total_weight;
Registrar::Registrar(const char * name, CaseFn fn, const void * arg, unsigned weight)
{
    if (g_count < 4096) {
        // Keep the entries sorted by name: initialization order must not matter.
        unsigned i = g_count++;
        while (i && std::strcmp(g_entries[i - 1].name, name) > 0) {
            g_entries[i] = g_entries[i - 1];
            --i;
        }
        g_entries[i] = {name, fn, arg, weight};
        g_total_weight += weight;
    }
}

// ---------------------------------------------------------------- shared state
constexpr std::size_t max_tape = 1 << 16;
constexpr std::size_t max_labels = 512;
constexpr std::size_t max_samples = 6;
constexpr std::size_t hash_slots = 1 << 22;
struct Label { char name[56]; std::uint64_t count; };
struct Shared
{
    std::uint64_t tape_len;
    std::uint64_t tape[max_tape];
    std::uint32_t target;
    std::uint64_t case_index;
    char message[2048];
    std::uint64_t evaluations, nontrivial, distinct, leak_rechecks, draws, exhausted;
    std::uint32_t label_count;
    Label labels[max_labels];
    std::uint32_t sample_count;
    char samples[max_samples][1024];
    std::uint64_t per_target[4096];
};
static Shared * g;
static std::uint64_t * g_hashes;

// per case state
static bool g_replay;
static std::size_t g_replay_len;
static std::uint64_t g_replay_tape[max_tape];
static std::size_t g_pos;
static std::uint64_t g_rng[2];
static bool g_case_nontrivial;
static std::uint64_t g_case_hash;
static bool g_case_hash_set;
static std::uint32_t g_case_labels[64];
static unsigned g_case_label_count;
static bool g_sampling;
static bool g_quiet; // do not record statistics
static char g_sample[1024];
static std::size_t g_sample_len;
static std::uint64_t g_target_cases[4096];

static std::uint64_t splitmix(std::uint64_t & x)
{
    std::uint64_t z = (x += 0x9e3779b97f4a7c15ull);
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    return z ^ (z >> 31);
}
static std::uint64_t rng_next()
{
    auto s0 = g_rng[0], s1 = g_rng[1];
    auto r = s0 + s1;
    s1 ^= s0;
    g_rng[0] = ((s0 << 24) | (s0 >> 40)) ^ s1 ^ (s1 << 16);
    g_rng[1] = (s1 << 37) | (s1 >> 27);
    return r;
}

#ifdef ENGINE_FUZZ
static const std::uint8_t * g_fuzz;
static std::size_t g_fuzz_len;
static std::uint64_t fuzz_take(std::uint64_t bound)
{
    unsigned n = bound == 0 ? 8 : bound <= 256 ? 1 : bound <= 65536 ? 2 : bound <= (1ull << 32) ? 4 : 8;
    std::uint64_t v = 0;
    for (unsigned i = 0; i < n && g_fuzz_len; ++i) {
        v |= std::uint64_t(*g_fuzz++) << (8 * i);
        --g_fuzz_len;
    }
    return bound ? v % bound : v;
}
#endif

static std::uint64_t choose(std::uint64_t bound) // bound 0: 64 bits
{
    std::uint64_t v;
    if (g_pos >= max_tape) {
        g->exhausted++;
        return 0;
    }
    if (g_replay) {
        v = g_pos < g_replay_len ? g_replay_tape[g_pos] : 0;
        if (bound && v >= bound) v %= bound;
    } else {
#ifdef ENGINE_FUZZ
        v = fuzz_take(bound);
#else
        v = rng_next();
        if (bound) v = std::uint64_t((static_cast<unsigned __int128>(v) * bound) >> 64);
#endif
    }
    g->tape[g_pos++] = v;
    g->tape_len = g_pos;
    return v;
}

std::uint64_t Src::bits() { return choose(0); }
std::uint64_t Src::below(std::uint64_t bound) { return bound <= 1 ? 0 : choose(bound); }
std::size_t Src::small(std::size_t max)
{
    if (!max) return 0;
    switch (below(8)) {
    case 0: case 1: case 2: case 3: { auto m = max < 3 ? max : 3; return below(m + 1); }
    case 4: case 5: { auto m = max < 8 ? max : 8; return below(m + 1); }
    default: return below(max + 1);
    }
}
std::size_t Src::length(std::size_t big_max)
{
    static const std::size_t edges[] = {127, 128, 129, 255, 256, 257, 63, 64, 65, 16383, 16384,
                                        16385, 65535, 65536, 65537, 300000};
    switch (below(40)) {
    case 39: {
        auto v = edges[below(sizeof(edges) / sizeof(edges[0]))];
        return v <= big_max ? v : below((big_max < 40 ? big_max : 40) + 1);
    }
    case 38: case 37: case 36: { auto m = big_max < 300 ? big_max : 300; return below(m + 1); }
    default: return small(big_max < 24 ? big_max : 24);
    }
}
std::uint64_t Src::interesting(unsigned width)
{
    std::uint64_t mask = width >= 64 ? ~0ull : (1ull << width) - 1;
    switch (below(10)) {
    case 0: case 1: return below(17) & mask;
    case 2: return (mask - below(4)) & mask;                       // -1, -2, ...
    case 3: return ((1ull << (width - 1)) + below(3) - 1) & mask;  // sign boundary
    case 4: { auto s = below(width); return ((1ull << s) + below(3) - 1) & mask; }
    case 5: { auto s = below((width + 6) / 7) * 7; return s >= 64 ? mask : ((1ull << s) + below(3) - 1) & mask; }
    case 6: { auto b = below(256); return (b * 0x0101010101010101ull) & mask; }
    case 7: { auto s = below(width); return (bits() >> s) & mask; }
    default: return bits() & mask;
    }
}

std::uint64_t hash_bytes(const void * p, std::size_t n, std::uint64_t h)
{
    auto b = static_cast<const unsigned char *>(p);
    for (std::size_t i = 0; i < n; ++i) h = (h ^ b[i]) * 1099511628211ull;
    return h;
}

// ---------------------------------------------------------------- reporting
void fail(const char * file, int line, const char * fmt, ...)
{
    Failure f;
    auto base = std::strrchr(file, '/');
    int n = std::snprintf(f.message, sizeof(f.message), "%s:%d: ", base ? base + 1 : file, line);
    va_list ap;
    va_start(ap, fmt);
    std::vsnprintf(f.message + n, sizeof(f.message) - n, fmt, ap);
    va_end(ap);
    throw f;
}
void Ctx::label(const char * name)
{
    if (g_quiet) return;
    std::uint32_t i = 0;
    for (; i < g->label_count; ++i)
        if (!std::strncmp(g->labels[i].name, name, sizeof(g->labels[i].name) - 1)) break;
    if (i == g->label_count) {
        if (i == max_labels) return;
        std::strncpy(g->labels[i].name, name, sizeof(g->labels[i].name) - 1);
        g->label_count++;
    }
    for (unsigned j = 0; j < g_case_label_count; ++j)
        if (g_case_labels[j] == i) return;
    if (g_case_label_count < 64) g_case_labels[g_case_label_count++] = i;
    g->labels[i].count++;
}
void Ctx::nontrivial() { g_case_nontrivial = true; }
void Ctx::distinct(std::uint64_t h) { g_case_hash = h; g_case_hash_set = true; }
bool Ctx::sampling() { return g_sampling; }
void Ctx::sample(const char * fmt, ...)
{
    if (!g_sampling) return;
    va_list ap;
    va_start(ap, fmt);
    int n = std::vsnprintf(g_sample + g_sample_len, sizeof(g_sample) - g_sample_len, fmt, ap);
    va_end(ap);
    if (n > 0) g_sample_len += n;
    if (g_sample_len >= sizeof(g_sample)) g_sample_len = sizeof(g_sample) - 1;
}
void Ctx::sample_bytes(const char * what, const void * p, std::size_t n)
{
    if (!g_sampling) return;
    sample("%s[%zu]=", what, n);
    auto b = static_cast<const unsigned char *>(p);
    for (std::size_t i = 0; i < n && i < 48; ++i) sample("%02x", b[i]);
    if (n > 48) sample("...");
    sample(" ");
}

// ---------------------------------------------------------------- running one case
static void on_prof(int)
{
    static const char m[] = "case used more than 20 s of CPU time (hang)";
    std::memcpy(g->message, m, sizeof(m));
    _exit(43);
}
static void arm(long sec)
{
    itimerval t{};
    t.it_value.tv_sec = sec;
    setitimer(ITIMER_VIRTUAL, &t, nullptr);
}

// ---------------------------------------------------------------- comparison with other builds
constexpr std::size_t max_trace = 1 << 20;
static unsigned char g_trace[max_trace];
static std::size_t g_trace_len;
static std::uint32_t g_trace_open = ~0u;
void trace_open() { if (g_trace_open == ~0u) g_trace_open = std::uint32_t(g_trace_len); }
void trace(const void * p, std::size_t n)
{
    if (n > max_trace - g_trace_len) n = max_trace - g_trace_len;
    std::memcpy(g_trace + g_trace_len, p, n);
    g_trace_len += n;
}

#ifdef ENGINE_PEERS
struct Peer { char name[64]; char path[512]; int to, from; };
static Peer g_peers[32];
static unsigned g_peer_count;
static pid_t g_peer_owner;
static bool io(int fd, void * p, std::size_t n, bool out)
{
    auto b = static_cast<char *>(p);
    while (n) {
        auto k = out ? write(fd, b, n) : read(fd, b, n);
        if (k < 0 && errno == EINTR) continue;
        if (k <= 0) return false;
        b += k;
        n -= std::size_t(k);
    }
    return true;
}
static void find_peers()
{
    char self[512];
    auto n = readlink("/proc/self/exe", self, sizeof self - 1);
    if (n <= 0) _exit(3);
    self[n] = 0;
    for (int k = 0; k < 2; ++k)
        if (auto s = std::strrchr(self, '/')) *s = 0;
    auto d = opendir(self);
    if (!d) _exit(3);
    while (auto x = readdir(d)) {
        if (std::strncmp(x->d_name, "peer", 4) || g_peer_count == 32) continue;
        auto & q = g_peers[g_peer_count];
        std::snprintf(q.name, sizeof q.name, "%s", x->d_name + 5);
        std::snprintf(q.path, sizeof q.path, "%s/%s/run", self, x->d_name);
        if (!access(q.path, X_OK)) ++g_peer_count;
    }
    closedir(d);
    if (!g_peer_count) { std::fprintf(stderr, "no other builds to compare with\n"); _exit(3); }
}
static void start(Peer & q)
{
    int a[2], b[2];
    if (pipe2(a, O_CLOEXEC) || pipe2(b, O_CLOEXEC)) _exit(3);
    auto pid = fork();
    if (!pid) {
        dup2(a[0], 0);
        dup2(b[1], 1);
        execl(q.path, q.path, "--serve", static_cast<char *>(nullptr));
        _exit(3);
    }
    close(a[0]);
    close(b[1]);
    q.to = a[1];
    q.from = b[0];
}
static bool compare_peers(const Entry & e)
{
    signal(SIGPIPE, SIG_IGN);
    if (g_peer_owner != getpid()) {
        if (!g_peer_count) find_peers();
        for (unsigned i = 0; i < g_peer_count; ++i) {
            if (g_peer_owner) { close(g_peers[i].to); close(g_peers[i].from); }
            start(g_peers[i]);
        }
        g_peer_owner = getpid();
    }
    std::uint32_t head[2] = {std::uint32_t(std::strlen(e.name)), std::uint32_t(g->tape_len)};
    for (unsigned i = 0; i < g_peer_count; ++i) {
        auto & q = g_peers[i];
        (void)(io(q.to, head, sizeof head, true) && io(q.to, const_cast<char *>(e.name), head[0], true) && io(q.to, g->tape, head[1] * 8, true));
    }
    bool ok = true;
    static unsigned char other[max_trace];
    static char message[2048];
    for (unsigned i = 0; i < g_peer_count; ++i) {
        auto & q = g_peers[i];
        std::uint32_t r[4];
        if (!io(q.from, r, sizeof r, false) || !io(q.from, other, r[1], false) || !io(q.from, message, r[2], false)) {
            if (ok) std::snprintf(g->message, sizeof g->message, "the %.60s build died in this case", q.name);
            ok = false;
            close(q.to), close(q.from);
            start(q);
            continue;
        }
        if (!ok) continue;
        if (r[0] == 2) { std::fprintf(stderr, "build %s does not know %s\n", q.name, e.name); _exit(3); }
        if (!r[0]) {
            message[r[2] < sizeof message ? r[2] : sizeof message - 1] = 0;
            std::snprintf(g->message, sizeof g->message, "fails in the %.60s build only: %.1800s", q.name, message);
            ok = false;
            continue;
        }
        // Between different standard libraries the part from trace_open() on may differ.
        std::size_t open = ~std::size_t{}, at = 0;
        if (std::strstr(q.name, "gcc") || std::strstr(q.name, "libstdcxx")) open = r[3] < g_trace_open ? r[3] : g_trace_open;
        while (at < open && at < r[1] && at < g_trace_len && other[at] == g_trace[at]) ++at;
        if (at < open && (at < r[1] || at < g_trace_len)) {
            char x[2][64];
            unsigned char * t[2] = {g_trace, other};
            std::size_t len[2] = {g_trace_len, r[1]};
            for (int k = 0; k < 2; ++k) {
                x[k][0] = 0;
                for (std::size_t j = 0; j < 24 && at + j < len[k]; ++j) std::snprintf(x[k] + 2 * j, 3, "%02x", t[k][at + j]);
            }
            std::snprintf(g->message, sizeof g->message, "the %.60s build observes something else, from byte %zu of the trace: %s, here: %s", q.name, at, x[1], x[0]);
            ok = false;
        }
    }
    return ok;
}
#endif

// Returns true when the case passed; otherwise g->message is set.
static bool run_raw(const Entry & e)
{
    g_pos = 0;
    g->tape_len = 0;
    g_case_nontrivial = false;
    g_case_hash_set = false;
    g_case_label_count = 0;
    g_sample_len = 0;
    g_sample[0] = 0;
    alloc_fail_in = 0;
    Ctx ctx;
    try {
        g_trace_len = 0;
        g_trace_open = ~0u;
        e.fn(ctx, e.arg);
#ifdef ENGINE_PEERS
        return compare_peers(e);
#else
        return true;
#endif
    } catch (const Failure & f) {
        std::strncpy(g->message, f.message, sizeof(g->message) - 1);
    } catch (const std::exception & ex) {
        std::snprintf(g->message, sizeof(g->message), "unexpected exception %s: %s", typeid(ex).name(), ex.what());
    } catch (...) {
        std::snprintf(g->message, sizeof(g->message), "unexpected exception");
    }
    return false;
}

static bool run_case(const Entry & e)
{
    auto before = g_alloc.live_count;
    auto before_bytes = g_alloc.live_bytes;
    bool ok = run_raw(e);
    if (ok && g_alloc.live_count != before) {
        // A lazily initialized static is not a leak: the same case must leak again.
        g->leak_rechecks++;
        auto n = g->tape_len;
        std::memcpy(g_replay_tape, g->tape, n * 8);
        bool was_replay = g_replay;
        auto was_len = g_replay_len;
        g_replay = true;
        g_replay_len = n;
        bool nt = g_case_nontrivial;
        g_quiet = true;
        before = g_alloc.live_count;
        before_bytes = g_alloc.live_bytes;
        ok = run_raw(e);
        g_quiet = false;
        g_case_nontrivial = nt;
        g_replay = was_replay;
        g_replay_len = was_len;
        if (ok && g_alloc.live_count != before) {
            std::snprintf(g->message, sizeof(g->message),
                          "%lld allocation(s), %lld bytes leaked by the case",
                          (long long)(g_alloc.live_count - before),
                          (long long)(g_alloc.live_bytes - before_bytes));
            ok = false;
        }
    }
    return ok;
}

static void * map_shared(std::size_t n)
{
    auto p = mmap(nullptr, n, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (p == MAP_FAILED) { std::perror("mmap"); std::exit(3); }
    return p;
}

static void quiet_stderr(const char * path)
{
    int fd = open(path, O_WRONLY | O_CREAT | O_TRUNC, 0644);
    if (fd >= 0) { dup2(fd, 2); close(fd); }
}

// Forks; runs one replay of (target, tape in g_replay_tape); returns 0 pass, 1 failed, 2 crashed.
static int attempt(const Entry & e, const char * errlog)
{
    g->message[0] = 0;
    pid_t pid = fork();
    if (pid == 0) {
        quiet_stderr(errlog);
        signal(SIGVTALRM, on_prof);
        arm(20);
        g_replay = true;
        bool ok = run_case(e);
        _exit(ok ? 0 : 42);
    }
    int st = 0;
    waitpid(pid, &st, 0);
    if (WIFEXITED(st) && WEXITSTATUS(st) == 0) return 0;
    if (WIFEXITED(st) && (WEXITSTATUS(st) == 42 || WEXITSTATUS(st) == 43)) return 1;
    return 2;
}

static double now()
{
    timespec t;
    clock_gettime(CLOCK_MONOTONIC, &t);
    return t.tv_sec + t.tv_nsec * 1e-9;
}

static void crash_message(const char * errlog)
{
    int fd = open(errlog, O_RDONLY);
    if (fd < 0) { std::strcpy(g->message, "crash"); return; }
    static char buf[65536];
    auto n = read(fd, buf, sizeof(buf) - 1);
    close(fd);
    if (n < 0) n = 0;
    buf[n] = 0;
    const char * keys[] = {"runtime error:", "SUMMARY:", "ERROR:", "Assertion", "terminate called", "terminating"};
    for (auto k : keys)
        if (auto p = std::strstr(buf, k)) {
            auto b = p;
            while (b > buf && b[-1] != '\n') --b;
            auto e = std::strchr(p, '\n');
            auto len = e ? e - b : (long)std::strlen(b);
            if (len > 1800) len = 1800;
            std::snprintf(g->message, sizeof(g->message), "crash: %.*s", (int)len, b);
            return;
        }
    std::snprintf(g->message, sizeof(g->message), "crash: %.1500s", buf);
}

static void shrink(const Entry & e, const char * errlog, double budget)
{
    static std::uint64_t best[max_tape], cand[max_tape];
    std::size_t n = g_replay_len;
    std::memcpy(best, g_replay_tape, n * 8);
    double end = now() + budget;
    unsigned tries = 0;
    auto attempt_tape = [&](std::size_t len) {
        if (now() > end || ++tries > 3000) return false;
        std::memcpy(g_replay_tape, cand, len * 8);
        g_replay_len = len;
        if (!attempt(e, errlog)) return false;
        // adopt the tape as actually used, if not longer
        std::size_t used = g->tape_len < len ? g->tape_len : len;
        for (std::size_t i = 0; i < used; ++i) best[i] = g->tape[i];
        n = used;
        while (n && best[n - 1] == 0) --n;
        return true;
    };
    bool progress = true;
    while (progress && now() < end && tries < 3000) {
        progress = false;
        for (std::size_t chunk = n; chunk >= 1; chunk /= 2) {
            for (std::size_t i = 0; i + chunk <= n;) {
                if (now() > end) break;
                // delete
                std::memcpy(cand, best, i * 8);
                std::memcpy(cand + i, best + i + chunk, (n - i - chunk) * 8);
                auto old = n;
                if (attempt_tape(n - chunk) && n < old) { progress = true; continue; }
                // zero
                bool any = false;
                for (std::size_t j = i; j < i + chunk && j < n; ++j) any |= best[j] != 0;
                if (any && i + chunk <= n) {
                    std::memcpy(cand, best, n * 8);
                    std::memset(cand + i, 0, chunk * 8);
                    if (attempt_tape(n)) progress = true;
                }
                i += chunk;
            }
        }
        for (std::size_t i = 0; i < n; ++i) {
            if (now() > end) break;
            // minimize single values
            std::uint64_t lo = 0;
            while (i < n && lo < best[i]) {
                auto mid = lo + (best[i] - lo) / 2;
                std::memcpy(cand, best, n * 8);
                cand[i] = mid;
                auto prev = best[i];
                if (attempt_tape(n) && i < n && best[i] < prev) progress = true;
                else lo = mid + 1;
                if (now() > end) break;
            }
        }
    }
    std::memcpy(g_replay_tape, best, n * 8);
    g_replay_len = n;
}

static void json_str(FILE * f, const char * s)
{
    std::fputc('"', f);
    for (; *s; ++s) {
        unsigned char c = *s;
        if (c == '"' || c == '\\') std::fprintf(f, "\\%c", c);
        else if (c < 32 || c > 126) std::fprintf(f, "\\u%04x", c);
        else std::fputc(c, f);
    }
    std::fputc('"', f);
}
static void write_replay(const char * path, const char * name, const char * msg)
{
    FILE * f = std::fopen(path, "w");
    if (!f) return;
    std::fprintf(f, "target %s\n", name);
    std::fprintf(f, "tape %zu", g_replay_len);
    for (std::size_t i = 0; i < g_replay_len; ++i) std::fprintf(f, " %llu", (unsigned long long)g_replay_tape[i]);
    std::fprintf(f, "\n# %s\n", msg);
    std::fclose(f);
}
static const Entry * find(const char * name)
{
    for (unsigned i = 0; i < g_count; ++i)
        if (!std::strcmp(g_entries[i].name, name)) return &g_entries[i];
    return nullptr;
}
static bool read_replay(const char * path, char * name)
{
    FILE * f = std::fopen(path, "r");
    if (!f) return false;
    std::size_t n = 0;
    bool ok = std::fscanf(f, "target %511[^\n] tape %zu", name, &n) == 2 && n <= max_tape;
    for (std::size_t i = 0; ok && i < n; ++i) {
        unsigned long long v;
        ok = std::fscanf(f, "%llu", &v) == 1;
        g_replay_tape[i] = v;
    }
    g_replay_len = n;
    std::fclose(f);
    return ok;
}

static bool insert_hash(std::uint64_t h)
{
    if (!h) h = 1;
    std::size_t i = h % hash_slots;
    for (unsigned k = 0; k < 64; ++k) {
        if (g_hashes[i] == h) return false;
        if (!g_hashes[i]) { g_hashes[i] = h; return true; }
        i = (i + 1) % hash_slots;
    }
    return false;
}

static void account(const Entry & e, unsigned ti)
{
    g->evaluations++;
    g->per_target[ti]++;
    g->draws += g->tape_len;
    if (g_case_nontrivial) {
        g->nontrivial++;
        auto h = g_case_hash_set ? g_case_hash : hash_bytes(g->tape, g->tape_len * 8);
        h = hash_bytes(e.name, std::strlen(e.name), h);
        if (insert_hash(h)) g->distinct++;
        if (g_sampling && g_sample_len) {
            std::snprintf(g->samples[g->sample_count], 1024, "%.90s: %.900s", e.name, g_sample);
            g->sample_count++;
        }
    }
}

#ifndef ENGINE_FUZZ
static int usage()
{
    std::fprintf(stderr, "engine --run --cases N --seed S --shard i/n --out stats.json --replay-out file [--only substr]\n"
                         "       --replay file | --list\n");
    return 3;
}
#endif
} // namespace eng

#ifndef ENGINE_THREADS
void * operator new(std::size_t n) { return eng::do_new(n); }
void * operator new[](std::size_t n) { return eng::do_new(n); }
void operator delete(void * p) noexcept { eng::do_delete(p); }
void operator delete[](void * p) noexcept { eng::do_delete(p); }
void operator delete(void * p, std::size_t) noexcept { eng::do_delete(p); }
void operator delete[](void * p, std::size_t) noexcept { eng::do_delete(p); }
#endif

using namespace eng;

#ifdef ENGINE_FUZZ
static void init_fuzz()
{
    if (g) return;
    g = static_cast<Shared *>(map_shared(sizeof(Shared)));
    g_hashes = static_cast<std::uint64_t *>(map_shared(hash_slots * 8));
}
extern "C" int LLVMFuzzerTestOneInput(const std::uint8_t * data, std::size_t size)
{
    init_fuzz();
    if (size < 2) return 0;
    unsigned t = (data[0] | data[1] << 8) % g_count;
    g_fuzz = data + 2;
    g_fuzz_len = size - 2;
    g_replay = false;
    auto & e = g_entries[t];
    bool ok = run_case(e);
    account(e, t);
    if (!ok) {
        auto path = std::getenv("ENGINE_REPLAY_OUT");
        std::memcpy(g_replay_tape, g->tape, g->tape_len * 8);
        g_replay_len = g->tape_len;
        write_replay(path ? path : "fuzz.replay", e.name, g->message);
        std::fprintf(stderr, "ENGINE FAILURE: %s: %s\n", e.name, g->message);
        std::abort();
    }
    return 0;
}
#else
// Runs the cases of another build and answers with what they observed.
static int serve()
{
    g = static_cast<Shared *>(map_shared(sizeof(Shared)));
    signal(SIGVTALRM, on_prof);
    g_quiet = true;
    static char name[1024];
    std::uint32_t head[2];
    auto in = [](void * p, std::size_t n) { return !n || std::fread(p, n, 1, stdin) == 1; };
    while (in(head, sizeof head)) {
        if (head[0] >= sizeof name || head[1] > max_tape || !in(name, head[0]) || !in(g_replay_tape, head[1] * 8)) return 3;
        name[head[0]] = 0;
        g_replay_len = head[1];
        g_replay = true;
        auto e = find(name);
        arm(30);
        bool ok = e && run_raw(*e);
        std::uint32_t r[4] = {e ? ok : 2u, std::uint32_t(g_trace_len), std::uint32_t(ok ? 0 : std::strlen(g->message)), g_trace_open};
        std::fwrite(r, sizeof r, 1, stdout);
        std::fwrite(g_trace, g_trace_len, 1, stdout);
        std::fwrite(g->message, r[2], 1, stdout);
        std::fflush(stdout);
    }
    return 0;
}
int main(int argc, char ** argv)
{
    for (unsigned i = 1, same = 0; i < g_count; ++i) { // equal names are adjacent: replays need distinct ones
        static const char * first;
        if (!same) first = g_entries[i - 1].name;
        if (std::strcmp(first, g_entries[i].name)) { same = 0; continue; }
        auto n = static_cast<char *>(std::malloc(std::strlen(first) + 12));
        std::sprintf(n, "%s~%u", first, ++same);
        g_entries[i].name = n;
    }
    std::uint64_t cases = 1000, seed = 1;
    unsigned shard = 0, shards = 1;
    const char * out = nullptr; const char * replay_out = "replay.txt"; const char * replay = nullptr;
    const char * only = nullptr; const char * errlog = "/dev/null";
    double shrink_s = 25, max_s = 0;
    bool run = false;
    for (int i = 1; i < argc; ++i) {
        auto is = [&](const char * s) { return !std::strcmp(argv[i], s) && i + 1 < argc; };
        if (!std::strcmp(argv[i], "--run")) run = true;
        else if (!std::strcmp(argv[i], "--serve")) return serve();
        else if (!std::strcmp(argv[i], "--list")) {
            for (unsigned k = 0; k < g_count; ++k) std::printf("%s %u\n", g_entries[k].name, g_entries[k].weight);
            return 0;
        }
        else if (is("--cases")) cases = std::strtoull(argv[++i], nullptr, 10);
        else if (is("--seed")) seed = std::strtoull(argv[++i], nullptr, 10);
        else if (is("--shard")) std::sscanf(argv[++i], "%u/%u", &shard, &shards);
        else if (is("--out")) out = argv[++i];
        else if (is("--replay-out")) replay_out = argv[++i];
        else if (is("--replay")) replay = argv[++i];
        else if (is("--only")) only = argv[++i];
        else if (is("--errlog")) errlog = argv[++i];
        else if (is("--shrink")) shrink_s = std::atof(argv[++i]);
        else if (is("--max-s")) max_s = std::atof(argv[++i]);
        else return usage();
    }
    g = static_cast<Shared *>(map_shared(sizeof(Shared)));
    g_hashes = static_cast<std::uint64_t *>(map_shared(hash_slots * 8));
    rlimit no_core{0, 0};
    setrlimit(RLIMIT_CORE, &no_core);
    if (replay) {
        static char name[512];
        if (!read_replay(replay, name)) { std::fprintf(stderr, "bad replay file\n"); return 3; }
        auto e = find(name);
        if (!e) { std::fprintf(stderr, "unknown target %s\n", name); return 4; }
        signal(SIGVTALRM, on_prof);
        arm(30);
        g_replay = true;
        g_sampling = true;
        bool ok = run_case(*e);
        std::printf("%s: %s%s\nsample: %s\n", name, ok ? "pass" : "FAIL ", ok ? "" : g->message, g_sample);
        return ok ? 0 : 42;
    }
    if (!run || !g_count) return usage();
    unsigned tw = 0;
    for (unsigned k = 0; k < g_count; ++k)
        if (!only || std::strstr(g_entries[k].name, only)) tw += g_entries[k].weight; else g_entries[k].weight = 0;
    if (!tw) return usage();
    double start = now();
    pid_t pid = fork();
    if (pid == 0) {
        quiet_stderr(errlog);
        signal(SIGVTALRM, on_prof);
        std::uint64_t wpos = shard; // spread the targets deterministically by weight
        for (std::uint64_t c = shard; c < cases; c += shards, wpos += shards) {
            // low discrepancy choice of target
            std::uint64_t w = (wpos * 2654435761ull + seed) % tw;
            unsigned ti = 0;
            while (w >= g_entries[ti].weight) w -= g_entries[ti++].weight;
            auto & e = g_entries[ti];
            std::uint64_t s = seed * 0x9e3779b97f4a7c15ull + c * 0xd1342543de82ef95ull;
            s ^= hash_bytes(e.name, std::strlen(e.name));
            g_rng[0] = splitmix(s);
            g_rng[1] = splitmix(s) | 1;
            g->target = ti;
            g->case_index = c;
            g_sampling = g->sample_count < max_samples && (c / shards) % 7 == 3;
            arm(20);
            bool ok = run_case(e);
            if (!ok) _exit(42);
            account(e, ti);
            if (max_s > 0 && (c / shards) % 64 == 63 && now() - start > max_s) break;
            (void)g_target_cases;
        }
        _exit(0);
    }
    int st = 0;
    waitpid(pid, &st, 0);
    bool failed = !(WIFEXITED(st) && WEXITSTATUS(st) == 0);
    bool reproduced = false;
    if (failed) {
        auto & e = g_entries[g->target];
        if (!WIFEXITED(st) || (WEXITSTATUS(st) != 42 && WEXITSTATUS(st) != 43)) crash_message(errlog);
        static char msg[2048];
        std::strcpy(msg, g->message);
        g_replay_len = g->tape_len;
        std::memcpy(g_replay_tape, g->tape, g->tape_len * 8);
        // first as found, so that a replay always exists
        write_replay(replay_out, e.name, msg);
        int a = attempt(e, errlog);
        if (a) {
            reproduced = true;
            shrink(e, errlog, shrink_s);
            a = attempt(e, errlog);
            if (a == 2) crash_message(errlog);
            if (a) { std::strcpy(msg, g->message); write_replay(replay_out, e.name, msg); }
        }
        std::strcpy(g->message, msg);
        std::printf("FAILED target=%s case=%llu reproduced=%d: %s\n", e.name, (unsigned long long)g->case_index, reproduced, msg);
    }
    if (out) {
        FILE * f = std::fopen(out, "w");
        if (f) {
            std::fprintf(f, "{\"evaluations\":%llu,\"nontrivial\":%llu,\"distinct\":%llu,\"leak_rechecks\":%llu,\"draws\":%llu,\"tape_exhausted\":%llu,\"failed\":%d,\"reproduced\":%d,\"case\":%llu,\"seconds\":%.3f,",
                         (unsigned long long)g->evaluations, (unsigned long long)g->nontrivial, (unsigned long long)g->distinct,
                         (unsigned long long)g->leak_rechecks, (unsigned long long)g->draws, (unsigned long long)g->exhausted,
                         failed, reproduced, (unsigned long long)g->case_index, now() - start);
            std::fprintf(f, "\"target\":"); json_str(f, failed ? g_entries[g->target].name : "");
            std::fprintf(f, ",\"message\":"); json_str(f, failed ? g->message : "");
            std::fprintf(f, ",\"labels\":{");
            for (unsigned i = 0; i < g->label_count; ++i) { if (i) std::fputc(',', f); json_str(f, g->labels[i].name); std::fprintf(f, ":%llu", (unsigned long long)g->labels[i].count); }
            std::fprintf(f, "},\"targets\":{");
            bool first = true;
            for (unsigned i = 0; i < g_count; ++i) if (g->per_target[i]) { if (!first) std::fputc(',', f); first = false; json_str(f, g_entries[i].name); std::fprintf(f, ":%llu", (unsigned long long)g->per_target[i]); }
            std::fprintf(f, "},\"samples\":[");
            for (unsigned i = 0; i < g->sample_count; ++i) { if (i) std::fputc(',', f); json_str(f, g->samples[i]); }
            std::fprintf(f, "]}\n");
            std::fclose(f);
        }
    }
    return failed ? 42 : 0;
}
#endif
