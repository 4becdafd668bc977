// C22: compile-time hashing, hex decoding, byte literals, joins, slices and ids.
#pragma once
#include "common.hpp"
#include <zpp_bits.h>
#include <tuple>
using namespace zpp::bits::literals;

namespace c22
{
enum class color : std::uint16_t {};

template <typename T>
constexpr std::size_t width(const T & v)
{
    if constexpr (requires { v.size(); v.begin(); }) return v.size() * sizeof(*v.begin());
    else if constexpr (requires { std::tuple_size<T>::value; }) return std::apply([](auto &... x) { return (0 + ... + sizeof(x)); }, v);
    else return sizeof(v);
}
template <typename T>
void append(Bytes & b, const T & v)
{
    if constexpr (requires { v.size(); v.begin(); }) {
        std::size_t n = 0;
        for (auto & x : v) { append(b, x); ++n; }
        REQUIRE(n == v.size(), "%zu elements, size() says %zu", n, v.size());
    } else if constexpr (requires { std::tuple_size<T>::value; }) {
        std::apply([&](auto &... x) { (..., append(b, x)); }, v);
    } else {
        auto p = reinterpret_cast<const unsigned char *>(&v);
        b.insert(b.end(), p, p + sizeof(v));
    }
}
struct Entry
{
    const char * kind;
    const char * text;
    const char * expect;
    std::size_t size;
    bool type_ok;
    void (*run)(Bytes &);
    void (*compiled)(Bytes &);
};

inline void check(eng::Ctx & ctx, const Entry & e)
{
    REQUIRE(e.type_ok, "%s: the type of %s is not as documented", e.kind, sh(e.text).c_str());
    for (auto f : {e.run, e.compiled}) {
        if (!f) continue;
        Bytes got;
        f(got);
        auto text = hex(got, got.size());
        REQUIRE(text == e.expect, "%s: %s gives %s at %s time, expected %s", e.kind, sh(e.text).c_str(), text.c_str(), f == e.run ? "run" : "compile", e.expect);
    }
    ctx.label(e.kind);
    if (e.size) ctx.nontrivial();
    if (ctx.sampling()) ctx.sample("%s = %s", sh(e.text, 120).c_str(), e.expect);
}
template <std::size_t N>
void one(eng::Ctx & ctx, const Entry (&table)[N])
{
    auto first = ctx.src.below(N);
    auto n = ctx.src.below(4) + 1;
    ctx.distinct(first * 8 + n + (reinterpret_cast<std::uintptr_t>(&table) << 20));
    for (std::size_t i = 0; i < n; ++i) check(ctx, table[(first + i) % N]);
}

// the arithmetic below the hashes, against the machine's
template <typename T>
void arithmetic(eng::Ctx & ctx)
{
    using B = zpp::bits::numbers::big_endian<T>;
    constexpr unsigned bits = sizeof(T) * 8;
    T a = static_cast<T>(ctx.src.interesting(bits)), b = static_cast<T>(ctx.src.interesting(bits));
    auto check = [&](const B & got, T want, const char * what, unsigned n) {
        unsigned char buffer[sizeof(T)], expect[sizeof(T)];
        for (unsigned i = 0; i < sizeof(T); ++i) expect[i] = static_cast<unsigned char>(want >> (bits - 8 - 8 * i));
        std::memcpy(buffer, &got, sizeof(T));
        REQUIRE(!std::memcmp(buffer, expect, sizeof(T)), "%s of 0x%llx, 0x%llx, %u is %s, expected %s", what, static_cast<unsigned long long>(a), static_cast<unsigned long long>(b), n,
                hex(buffer, sizeof(T)).c_str(), hex(expect, sizeof(T)).c_str());
        std::array<std::byte, sizeof(T)> wire{};
        REQUIRE(success(zpp::bits::out{wire}(got)) && !std::memcmp(wire.data(), expect, sizeof(T)), "big_endian is written as %s, expected %s", hex(wire.data(), sizeof(T)).c_str(), hex(expect, sizeof(T)).c_str());
        B back{};
        REQUIRE(success(zpp::bits::in{wire}(back)) && back == got, "big_endian is read back differently");
    };
    B x{a}, y{b};
    static_assert(sizeof(B) == sizeof(T));
    check(x, a, "value", 0);
    check(x + y, static_cast<T>(a + b), "sum", 0);
    auto z = x;
    z += y;
    check(z, static_cast<T>(a + b), "+=", 0);
    check(x & y, a & b, "and", 0);
    check(x | y, a | b, "or", 0);
    check(x ^ y, a ^ b, "xor", 0);
    check(~x, ~a, "not", 0);
    for (unsigned n = 0; n < bits; ++n) {
        check(x << n, static_cast<T>(a << n), "<<", n);
        check(x >> static_cast<int>(n), static_cast<T>(a >> n), ">>", n);
        check(x << std::size_t{n}, static_cast<T>(a << n), "<<", n);
    }
    REQUIRE((x == y) == (a == b), "equality of 0x%llx and 0x%llx", static_cast<unsigned long long>(a), static_cast<unsigned long long>(b));
    if (a > 255 && b) ctx.nontrivial();
    ctx.label("arithmetic");
    if (ctx.sampling()) ctx.sample("big_endian 0x%llx, 0x%llx", static_cast<unsigned long long>(a), static_cast<unsigned long long>(b));
}

// every slice of an array of N elements
template <typename T, std::size_t N>
void slices(eng::Ctx & ctx)
{
    std::array<T, N> a;
    for (auto & x : a) x = static_cast<T>(ctx.src.bits());
    auto check = [&](const auto & s, std::size_t left, std::size_t right) {
        static_assert(std::is_same_v<typename std::remove_cvref_t<decltype(s)>::value_type, T>);
        REQUIRE(s.size() == right - left, "slice [%zu, %zu) of %zu has %zu elements", left, right, N, s.size());
        for (std::size_t i = left; i < right; ++i) REQUIRE(s[i - left] == a[i], "slice [%zu, %zu) of %zu: element %zu differs", left, right, N, i - left);
    };
    [&]<std::size_t... L>(std::index_sequence<L...>) {
        (..., [&]<std::size_t... K>(std::index_sequence<K...>) {
            constexpr auto left = L;
            (..., check(zpp::bits::slice<int(left), int(left + K + 1)>(a), left, left + K + 1));
            check(zpp::bits::slice<int(left)>(a), left, N);
            check(zpp::bits::slice<left, -1>(a), left, N);
        }(std::make_index_sequence<N - L>{}));
    }(std::make_index_sequence<N>{});
    ctx.label("slices");
    if (N > 1) ctx.nontrivial();
    if (ctx.sampling()) ctx.sample("all slices of %zu elements", N);
}
} // namespace c22

#define C22_BEGIN(NAME) static const char * const c22_unit = #NAME; static const c22::Entry c22_table[] = {
#define C22_TYPE(...) __VA_ARGS__
#define C22_RUN(KIND, SIZE, TYPE, EXPECT, ...)                                                                     \
    {#KIND, #__VA_ARGS__, EXPECT, SIZE, std::is_same_v<std::remove_cv_t<decltype(__VA_ARGS__)>, C22_TYPE TYPE>,    \
     +[](Bytes & b) { c22::append(b, __VA_ARGS__); }, nullptr},
#define C22_BOTH(KIND, SIZE, TYPE, EXPECT, ...)                                                                    \
    {#KIND, #__VA_ARGS__, EXPECT, SIZE, std::is_same_v<std::remove_cv_t<decltype(__VA_ARGS__)>, C22_TYPE TYPE>,    \
     +[](Bytes & b) { c22::append(b, __VA_ARGS__); },                                                              \
     +[](Bytes & b) { constexpr static auto v = __VA_ARGS__; c22::append(b, v); }},
#define C22_END                                                                                                    \
    };                                                                                                             \
    static eng::Registrar c22_registrar{c22_unit, [](eng::Ctx & ctx, const void *) { c22::one(ctx, c22_table); }, nullptr, 1};
