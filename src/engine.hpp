// Tape based property testing engine: every random choice of a case is one entry of a
// tape, so shrinking and replay are independent of the property.
#pragma once
#include <cstdint>
#include <cstddef>
#include <cstring>
#include <cstdio>
#include <cstdarg>

namespace eng
{
struct Failure
{
    char message[2048];
};

[[noreturn]] void fail(const char * file, int line, const char * fmt, ...)
    __attribute__((format(printf, 3, 4)));

// A source of choices. Choice 0 is always the simplest one.
class Src
{
public:
    std::uint64_t bits();                         // 64 uniform bits
    std::uint64_t below(std::uint64_t bound);     // [0, bound), bound >= 1
    std::uint64_t range(std::uint64_t lo, std::uint64_t hi) // inclusive
    {
        return hi - lo == ~std::uint64_t{} ? bits() : lo + below(hi - lo + 1);
    }
    bool flip(unsigned num = 1, unsigned den = 2) // true with num/den; 0 -> false
    {
        return below(den) >= den - num;
    }
    // Interesting integer of the given width: small, boundary, bit patterns, uniform.
    std::uint64_t interesting(unsigned width);
    // A container length: mostly small, sometimes at a size type boundary.
    std::size_t length(std::size_t big_max);
    std::size_t small(std::size_t max); // [0,max], biased to small
    template <typename T, std::size_t N> T pick(const T (&a)[N]) { return a[below(N)]; }
};

// What a case reports about itself.
struct Ctx
{
    Src src;
    void label(const char * name);      // counted once per case
    void nontrivial();                  // the case counts as non-trivial
    void distinct(std::uint64_t hash);  // what makes it distinct (default: the tape)
    bool sampling();                    // a sample is wanted
    void sample(const char * fmt, ...) __attribute__((format(printf, 2, 3)));
    void sample_bytes(const char * what, const void * p, std::size_t n);
};

using CaseFn = void (*)(Ctx &, const void * arg);
struct Registrar
{
    Registrar(const char * name, CaseFn fn, const void * arg = nullptr, unsigned weight = 1);
};

// Dynamic memory accounting (operator new only).
struct Alloc
{
    std::size_t live_count, live_bytes, max_request, total_bytes, peak_bytes;
};
Alloc & alloc();
void alloc_reset_peaks();
// RAII: allocations of the harness that are not part of the case.
extern std::size_t alloc_cap; // a request beyond this throws std::bad_alloc
extern std::size_t alloc_fail_in; // the n-th request from now throws std::bad_alloc (0: none)

// What the case observed, for the comparison with the same case in other builds.
void trace(const void * p, std::size_t n);
// What follows in this case may depend on the standard library (object sizes, for instance).
void trace_open();
template <typename T> void trace_value(const T & v) { trace(&v, sizeof v); }

std::uint64_t hash_bytes(const void * p, std::size_t n, std::uint64_t h = 1469598103934665603ull);
} // namespace eng

#define REQUIRE(cond, ...)                                                                         \
    do {                                                                                           \
        if (!(cond)) [[unlikely]] {                                                                \
            ::eng::fail(__FILE__, __LINE__, __VA_ARGS__);                                          \
        }                                                                                          \
    } while (0)
#define ENG_CAT2(a, b) a##b
#define ENG_CAT(a, b) ENG_CAT2(a, b)
#define PROPERTY(NAME, WEIGHT)                                                                     \
    static void ENG_CAT(prop_, __LINE__)(::eng::Ctx & ctx, const void *);                          \
    static ::eng::Registrar ENG_CAT(reg_, __LINE__){                                               \
        NAME, &ENG_CAT(prop_, __LINE__), nullptr, WEIGHT};                                         \
    static void ENG_CAT(prop_, __LINE__)(::eng::Ctx & ctx, const void *)
