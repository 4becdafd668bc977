// C09: varints encode minimally and decode exactly.
#pragma once
#include "common.hpp"

namespace c09
{
enum class e8 : std::uint8_t {};
enum class s8 : std::int8_t {};
enum class e16 : std::uint16_t {};
enum class s16 : std::int16_t {};
enum class e32 : std::uint32_t {};
enum class s32 : std::int32_t {};
enum class e64 : std::uint64_t {};
enum class s64 : std::int64_t {};
enum plain32 : int {};
constexpr auto N = zpp::bits::varint_encoding::normal;
constexpr auto Z = zpp::bits::varint_encoding::zig_zag;

template <typename T> std::size_t max_size() { return (sizeof(T) * 8 + 6) / 7; }

template <typename T> T from_bits(std::uint64_t b) { T t; std::memcpy(&t, &b, sizeof(t)); return t; }
template <typename T> std::uint64_t to_bits(T t) { std::uint64_t b = 0; std::memcpy(&b, &t, sizeof(t)); return b; }

template <typename T, zpp::bits::varint_encoding E>
Bytes reference(T t)
{
    model::Enc e;
    e.varint(model::M<zpp::bits::varint<T, E>>::wire(t));
    return e.out;
}

template <typename T, zpp::bits::varint_encoding E, typename B>
void one(T t, eng::Ctx & ctx, std::size_t before, std::size_t after, std::size_t spare, unsigned char fill, const Bytes & noise)
{
    using V = zpp::bits::varint<T, E>;
    using I = typename model::raw_int<T>::type;
    auto ref = reference<T, E>(t);
    auto bits = to_bits(t);
    REQUIRE(zpp::bits::varint_max_size<T> == max_size<T>(), "varint_max_size %zu", (std::size_t)zpp::bits::varint_max_size<T>);
    REQUIRE(ref.size() <= max_size<T>(), "reference of %zu bytes", ref.size());
    I i = static_cast<I>(t);
    auto advertised = zpp::bits::varint_size<E>(i);
    REQUIRE(std::size_t(advertised) == ref.size(), "varint_size(%llx) is %zu, encoding has %zu bytes", (unsigned long long)bits, std::size_t(advertised), ref.size());

    // fixed output of every relevant capacity: before + [0, size + spare]
    {
        auto cap = spare > ref.size() ? ref.size() - (spare - ref.size()) % (ref.size() + 1) : ref.size() + spare;
        Exact mem(before + cap);
        std::memset(mem.p, fill, mem.n);
        std::span<B> s{reinterpret_cast<B *>(mem.p), mem.n};
        zpp::bits::out out{s};
        out.reset(before);
        std::errc r = out(V{t});
        bool fits = cap >= ref.size();
        REQUIRE(r == (fits ? std::errc{} : std::errc::result_out_of_range), "fixed output of %llx with %zu bytes left: %s", (unsigned long long)bits, cap, code_name(r));
        for (std::size_t k = 0; k < before; ++k) REQUIRE(mem.p[k] == fill, "byte %zu before the position was changed", k);
        if (fits) {
            REQUIRE(out.position() == before + ref.size(), "position %zu after %zu+%zu", out.position(), before, ref.size());
            REQUIRE(equal_bytes(mem.p + before, ref.data(), ref.size()), "encoding of %llx: %s, expected %s", (unsigned long long)bits, hex(mem.p + before, ref.size()).c_str(), hex(ref).c_str());
            for (std::size_t k = before + ref.size(); k < mem.n; ++k) REQUIRE(mem.p[k] == fill, "byte %zu after the encoding was changed", k);
        }
    }
    // growing output over stale content
    {
        std::vector<B> data(before + spare, B(fill));
        zpp::bits::out out{data};
        out.reset(before);
        std::errc r = out(V{t});
        REQUIRE(r == std::errc{} && out.position() == before + ref.size(), "growing output of %llx: %s at %zu", (unsigned long long)bits, code_name(r), out.position());
        REQUIRE(data.size() == std::max(before + spare, before + ref.size()), "buffer of %zu bytes", data.size());
        REQUIRE(equal_bytes(data.data() + before, ref.data(), ref.size()), "growing: encoding of %llx: %s, expected %s", (unsigned long long)bits, hex(data.data() + before, ref.size()).c_str(), hex(ref).c_str());
    }
    // input, with `after` bytes of anything following
    {
        Bytes all(before, fill);
        all.insert(all.end(), ref.begin(), ref.end());
        for (std::size_t k = 0; k < after; ++k) all.push_back(noise[k % noise.size()]);
        Exact mem(all);
        std::span<const B> s{reinterpret_cast<const B *>(mem.p), mem.n};
        zpp::bits::in in{s};
        in.reset(before);
        V v{from_bits<T>(~bits)};
        std::errc r = in(v);
        REQUIRE(r == std::errc{}, "decoding %s with %zu bytes after it: %s", hex(ref).c_str(), after, code_name(r));
        REQUIRE(to_bits(v.value) == bits, "%s with %zu bytes after it decodes to %llx, expected %llx", hex(ref).c_str(), after, (unsigned long long)to_bits(v.value), (unsigned long long)bits);
        REQUIRE(in.position() == before + ref.size(), "position %zu, expected %zu", in.position(), before + ref.size());
    }
    // every truncation
    for (std::size_t n = 0; n < ref.size(); ++n) {
        Bytes all(before, fill);
        all.insert(all.end(), ref.begin(), ref.begin() + n);
        Exact mem(all);
        std::span<const B> s{reinterpret_cast<const B *>(mem.p), mem.n};
        zpp::bits::in in{s};
        in.reset(before);
        V v{};
        std::errc r = in(v);
        REQUIRE(r == std::errc::result_out_of_range, "%zu of %zu bytes: %s", n, ref.size(), code_name(r));
        REQUIRE(in.position() <= mem.n, "position %zu beyond %zu", in.position(), mem.n);
    }
    (void)ctx;
}

template <typename T, zpp::bits::varint_encoding E, typename B>
void single(eng::Ctx & ctx, const void *)
{
    auto bits = ctx.src.interesting(sizeof(T) * 8);
    if (ctx.src.flip(1, 3)) {
        // around a length boundary
        auto k = ctx.src.below(max_size<T>() + 1) * 7;
        bits = (k >= 64 ? 0 : std::uint64_t{1} << k) + ctx.src.below(5) - 2;
        if (ctx.src.flip()) bits = ~bits;
    }
    auto t = from_bits<T>(bits);
    auto noise = random_bytes(ctx.src, 13);
    if (ctx.src.flip(1, 3)) for (auto & b : noise) b |= 0x80;
    auto before = ctx.src.below(4);
    auto after = ctx.src.below(13), spare = ctx.src.below(22);
    one<T, E, B>(t, ctx, before, after, spare, (unsigned char)ctx.src.below(256), noise);
    auto n = reference<T, E>(t).size();
    char l[16];
    std::snprintf(l, sizeof l, "%zu bytes", n);
    static const char * names[] = {"", "1 byte", "2 bytes", "3 bytes", "4 bytes", "5 bytes", "6 bytes", "7 bytes", "8 bytes", "9 bytes", "10 bytes"};
    ctx.label(names[n]);
    if (n >= 2 || after < 10) ctx.nontrivial();

    // no terminator within the available bytes
    auto len = ctx.src.below(max_size<T>() + 6);
    auto junk = random_bytes(ctx.src, len);
    for (auto & b : junk) b |= 0x80;
    if (len > max_size<T>() && ctx.src.flip()) junk[len - 1] &= 0x7f; // terminated too late
    Bytes all(before, 0x11);
    all.insert(all.end(), junk.begin(), junk.end());
    Exact mem(all);
    std::span<const B> s{reinterpret_cast<const B *>(mem.p), mem.n};
    zpp::bits::in in{s};
    in.reset(before);
    zpp::bits::varint<T, E> v{};
    std::errc r = in(v);
    auto expect = len < max_size<T>() ? std::errc::result_out_of_range : std::errc::value_too_large;
    REQUIRE(r == expect, "unterminated varint of %zu bytes (maximum %zu): %s, expected %s", len, max_size<T>(), code_name(r), code_name(expect));
    REQUIRE(in.position() <= mem.n, "position %zu beyond %zu", in.position(), mem.n);
    if (ctx.sampling()) ctx.sample("%zu bit %s value %llx -> %s, %zu bytes after, %zu spare", sizeof(T) * 8, E == Z ? "zigzag" : "normal", (unsigned long long)to_bits(t), hex(reference<T, E>(t)).c_str(), after, spare);
}

// 256 consecutive values
template <typename T, zpp::bits::varint_encoding E, typename B>
void block(eng::Ctx & ctx, const void *)
{
    auto start = sizeof(T) <= 2 ? ctx.src.below(std::uint64_t{1} << (sizeof(T) * 8)) & ~std::uint64_t{255}
                                : ctx.src.interesting(sizeof(T) * 8) - ctx.src.below(256);
    auto noise = random_bytes(ctx.src, 13);
    auto after = ctx.src.below(13);
    auto before = ctx.src.below(3);
    for (unsigned i = 0; i < 256; ++i) one<T, E, B>(from_bits<T>(start + i), ctx, before, after, (start + i) % 22, 0xee, noise);
    ctx.nontrivial();
    ctx.label("256 consecutive values");
    if (ctx.sampling()) ctx.sample("%zu bit %s values from %llx on", sizeof(T) * 8, E == Z ? "zigzag" : "normal", (unsigned long long)start);
}

// many varints in one message
template <typename T, zpp::bits::varint_encoding E, typename B>
void stream(eng::Ctx & ctx, const void *)
{
    using V = zpp::bits::varint<T, E>;
    auto n = ctx.src.small(30);
    std::vector<V> vs(n);
    model::Enc e;
    for (auto & v : vs) {
        v.value = from_bits<T>(ctx.src.interesting(sizeof(T) * 8));
        e.varint(model::M<V>::wire(v.value));
    }
    std::vector<B> data;
    zpp::bits::out out{data};
    std::errc r = out(zpp::bits::unsized(vs));
    REQUIRE(r == std::errc{}, "%s", code_name(r));
    REQUIRE(data.size() == e.out.size() && equal_bytes(data.data(), e.out.data(), data.size()), "%zu varints: %s, expected %s", n, hex(data.data(), data.size()).c_str(), hex(e.out).c_str());
    Exact mem(e.out);
    std::span<const B> s{reinterpret_cast<const B *>(mem.p), mem.n};
    zpp::bits::in in{s};
    std::vector<V> back(n);
    std::errc q = in(zpp::bits::unsized(back));
    REQUIRE(q == std::errc{} && in.position() == mem.n, "%s at %zu of %zu", code_name(q), in.position(), mem.n);
    for (std::size_t i = 0; i < n; ++i) REQUIRE(to_bits(back[i].value) == to_bits(vs[i].value), "varint %zu of %zu differs", i, n);
    if (n > 1) ctx.nontrivial();
    ctx.label("stream");
}
} // namespace c09
#define C09(NAME, T, E, B)                                                                         \
    static eng::Registrar ENG_CAT(r1_, __LINE__){"single_" NAME, &c09::single<T, c09::E, B>, nullptr, 8}; \
    static eng::Registrar ENG_CAT(r2_, __LINE__){"block_" NAME, &c09::block<T, c09::E, B>, nullptr, 1};   \
    static eng::Registrar ENG_CAT(r3_, __LINE__){"stream_" NAME, &c09::stream<T, c09::E, B>, nullptr, 2};
