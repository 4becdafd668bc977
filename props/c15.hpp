// C15: constant evaluated and run-time serialization agree.
#pragma once
#include "common.hpp"
#include "configs.hpp"
#include <bit>
#include <cstdio>
#include <span>
#include <string_view>

enum class E8 : std::uint8_t { a, b = 200 };
enum class E16 : std::int16_t { a = -5, b = 0x1234 };
enum class E64 : std::uint64_t { a = 1, b = 1ull << 60 };

namespace c15
{
struct Rng
{
    std::uint64_t s;
    constexpr std::uint64_t next()
    {
        s += 0x9e3779b97f4a7c15ull;
        auto z = s;
        z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
        z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
        return z ^ (z >> 31);
    }
    constexpr std::uint64_t below(std::uint64_t n) { return next() % n; }
    // small, boundary or uniform
    constexpr std::uint64_t number()
    {
        auto w = below(64);
        switch (below(4)) {
        case 0: return below(4);
        case 1: return (std::uint64_t{1} << w) - below(3);
        case 2: return next() >> w;
        default: return next();
        }
    }
};

template <typename T> struct K;
template <typename T> requires std::is_integral_v<T> || std::is_enum_v<T>
struct K<T>
{
    static constexpr bool hostile = !std::is_same_v<T, bool>;
    static constexpr T mk(Rng & r) { if constexpr (std::is_same_v<T, bool>) return r.below(2); else return static_cast<T>(r.number()); }
    static constexpr bool eq(const T & a, const T & b) { return a == b; }
};
template <> struct K<float>
{
    static constexpr bool hostile = true;
    static constexpr float mk(Rng & r) { return std::bit_cast<float>(std::uint32_t(r.number())); }
    static constexpr bool eq(const float & a, const float & b) { return std::bit_cast<std::uint32_t>(a) == std::bit_cast<std::uint32_t>(b); }
};
template <> struct K<double>
{
    static constexpr bool hostile = true;
    static constexpr double mk(Rng & r) { return std::bit_cast<double>(r.number()); }
    static constexpr bool eq(const double & a, const double & b) { return std::bit_cast<std::uint64_t>(a) == std::bit_cast<std::uint64_t>(b); }
};
template <typename T, zpp::bits::varint_encoding E>
struct K<zpp::bits::varint<T, E>>
{
    static constexpr bool hostile = true;
    static constexpr zpp::bits::varint<T, E> mk(Rng & r) { return T(r.number()); }
    static constexpr bool eq(const auto & a, const auto & b) { return a.value == b.value; }
};
template <> struct K<std::monostate>
{
    static constexpr bool hostile = true;
    static constexpr std::monostate mk(Rng &) { return {}; }
    static constexpr bool eq(const auto &, const auto &) { return true; }
};
template <typename T, std::size_t N>
struct K<std::array<T, N>>
{
    static constexpr bool hostile = K<T>::hostile;
    static constexpr std::array<T, N> mk(Rng & r) { std::array<T, N> a{}; for (auto & x : a) x = K<T>::mk(r); return a; }
    static constexpr bool eq(const auto & a, const auto & b) { for (std::size_t i = 0; i < N; ++i) if (!K<T>::eq(a[i], b[i])) return false; return true; }
};
// members that are C arrays are made in place
template <typename T> constexpr void mk_into(T & t, Rng & r)
{
    if constexpr (std::is_array_v<T>) { for (auto & x : t) mk_into(x, r); }
    else t = K<T>::mk(r);
}
template <typename T> constexpr bool eq_of(const T & a, const T & b)
{
    if constexpr (std::is_array_v<T>) { for (std::size_t i = 0; i < std::extent_v<T>; ++i) if (!eq_of(a[i], b[i])) return false; return true; }
    else return K<T>::eq(a, b);
}
template <typename A, typename B>
struct K<std::pair<A, B>>
{
    static constexpr bool hostile = K<A>::hostile && K<B>::hostile;
    static constexpr std::pair<A, B> mk(Rng & r) { auto a = K<A>::mk(r); return {std::move(a), K<B>::mk(r)}; }
    static constexpr bool eq(const auto & a, const auto & b) { return K<A>::eq(a.first, b.first) && K<B>::eq(a.second, b.second); }
};
template <typename... T>
struct K<std::tuple<T...>>
{
    static constexpr bool hostile = (true && ... && K<T>::hostile);
    static constexpr std::tuple<T...> mk(Rng & r) { std::tuple<T...> t{}; std::apply([&](auto &... x) { (mk_into(x, r), ...); }, t); return t; }
    static constexpr bool eq(const auto & a, const auto & b)
    {
        return [&]<std::size_t... I>(std::index_sequence<I...>) { return (true && ... && eq_of(std::get<I>(a), std::get<I>(b))); }(std::index_sequence_for<T...>{});
    }
};
template <typename T>
struct K<std::optional<T>>
{
    static constexpr bool hostile = K<T>::hostile;
    static constexpr std::optional<T> mk(Rng & r) { if (r.below(3)) return K<T>::mk(r); return std::nullopt; }
    static constexpr bool eq(const auto & a, const auto & b) { return a.has_value() == b.has_value() && (!a || K<T>::eq(*a, *b)); }
};
template <typename... T>
struct K<std::variant<T...>>
{
    static constexpr bool hostile = (true && ... && K<T>::hostile);
    static constexpr std::variant<T...> mk(Rng & r)
    {
        auto k = r.below(sizeof...(T));
        std::variant<T...> v;
        [&]<std::size_t... I>(std::index_sequence<I...>) { ((k == I ? (void)(v = K<T>::mk(r)) : void()), ...); }(std::index_sequence_for<T...>{});
        return v;
    }
    static constexpr bool eq(const auto & a, const auto & b)
    {
        if (a.index() != b.index()) return false;
        return [&]<std::size_t... I>(std::index_sequence<I...>) { return (false || ... || (a.index() == I && K<T>::eq(*std::get_if<I>(&a), *std::get_if<I>(&b)))); }(std::index_sequence_for<T...>{});
    }
};
template <typename C>
struct KSeq
{
    using T = typename C::value_type;
    static constexpr bool hostile = K<T>::hostile;
    static constexpr C mk(Rng & r) { C c; for (auto n = r.below(6); n--;) c.push_back(K<T>::mk(r)); return c; }
    static constexpr bool eq(const auto & a, const auto & b)
    {
        if (a.size() != b.size()) return false;
        for (std::size_t i = 0; i < a.size(); ++i) if (!K<T>::eq(a[i], b[i])) return false;
        return true;
    }
};
template <typename T> struct K<std::vector<T>> : KSeq<std::vector<T>> {};
template <typename T> struct K<std::basic_string<T>> : KSeq<std::basic_string<T>> {};
template <typename C, typename S> struct K<zpp::bits::sized_item<C, S>> : KSeq<zpp::bits::sized_item<C, S>> {};

template <typename S> struct Mem { static constexpr bool is = false; };
template <typename X> constexpr bool hostile_one()
{
    if constexpr (std::is_array_v<X>) return hostile_one<std::remove_extent_t<X>>();
    else return K<X>::hostile;
}
template <typename X> struct all_hostile;
template <typename... X> struct all_hostile<std::tuple<X...>> { static constexpr bool value = (true && ... && hostile_one<std::remove_cvref_t<X>>()); };
template <typename S> requires (Mem<S>::is)
struct K<S>
{
    using tied = decltype(Mem<S>::tie(std::declval<S &>()));
    static constexpr bool hostile = all_hostile<tied>::value;
    static constexpr S mk(Rng & r) { S s{}; std::apply([&](auto &... x) { (mk_into(x, r), ...); }, Mem<S>::tie(s)); return s; }
    static constexpr bool eq(const S & a, const S & b)
    {
        auto x = Mem<S>::tie(a);
        auto y = Mem<S>::tie(b);
        return [&]<std::size_t... I>(std::index_sequence<I...>) { return (true && ... && eq_of(std::get<I>(x), std::get<I>(y))); }(std::make_index_sequence<std::tuple_size_v<tied>>{});
    }
};

// A message whose length needs one or two bytes as a variable size.
struct long_text
{
    std::string s;
    std::vector<std::byte> b;
    using serialize = zpp::bits::pb_protocol;
};
template <> struct K<long_text>
{
    static constexpr bool hostile = true;
    static constexpr long_text mk(Rng & r)
    {
        long_text t;
        auto n = r.below(3) ? 112 + r.below(24) : r.below(280);
        for (std::size_t i = 0; i < n; ++i) t.s.push_back(char(r.number()));
        for (auto k = r.below(4); k; --k) t.b.push_back(std::byte(r.number()));
        return t;
    }
    static constexpr bool eq(const auto & a, const auto & b) { return a.s == b.s && a.b == b.b; }
};
constexpr std::size_t samples = 8;
template <std::size_t N>
struct Result
{
    std::array<unsigned char, N> bytes{};
    std::size_t size{}, written{}, read{};
    int wcode{}, gcode{}, rcode{};
    std::size_t gsize{};
    bool same_growing{}, equal{};
    std::array<int, samples> cut_wcode{}, cut_rcode{}, bad_rcode{};
    std::array<std::size_t, samples> cut{}, cut_wpos{}, cut_rpos{}, bad_rpos{}, bad_at{};
    std::array<std::uint64_t, samples> bad_value{}, cut_bytes{};
};

template <typename B> constexpr unsigned char u(B b) { return static_cast<unsigned char>(b); }

template <typename T, typename C, std::size_t N>
constexpr Result<N> run(std::uint64_t seed)
{
    using B = typename C::byte;
    Result<N> res{};
    Rng r{seed};
    T v{};
    mk_into(v, r);
    std::array<B, N> buf{};
    for (auto & b : buf) b = B(0x5a);
    std::size_t start = r.below(4);
    {
        auto out = C::out(buf);
        out.reset(start);
        res.wcode = int(std::errc(out(v)));
        res.written = out.position();
        for (std::size_t i = 0; i < N; ++i) res.bytes[i] = u(buf[i]);
    }
    {
        std::vector<B> data(start, B(0x5a));
        auto out = C::out(data);
        out.reset(start);
        res.gcode = int(std::errc(out(v)));
        res.gsize = data.size();
        res.same_growing = true;
        for (std::size_t i = 0; i < data.size() && i < res.written; ++i) if (data[i] != buf[i]) res.same_growing = false;
    }
    if (res.wcode) return res;
    std::size_t size = res.written;
    {
        T w{};
        if (r.below(2)) mk_into(w, r);
        auto in = C::in(buf);
        in.reset(start);
        res.rcode = int(std::errc(in(w)));
        res.read = in.position();
        res.equal = eq_of(v, w);
    }
    for (std::size_t k = 0; k < samples; ++k) {
        std::size_t n = start + r.below(size - start + 1);
        res.cut[k] = n;
        {
            std::array<B, N> small{};
            std::span<B> s{small.data(), n};
            auto out = C::out(s);
            out.reset(start);
            res.cut_wcode[k] = int(std::errc(out(v)));
            res.cut_wpos[k] = out.position();
            for (auto b : s) res.cut_bytes[k] = res.cut_bytes[k] * 1099511628211ull + u(b) + 1;
        }
        {
            T w{};
            std::span<const B> s{buf.data(), n};
            auto in = C::in(s);
            in.reset(start);
            res.cut_rcode[k] = int(std::errc(in(w)));
            res.cut_rpos[k] = in.position();
        }
        if constexpr (K<T>::hostile) {
            if (size > start) {
                auto bad = buf;
                auto at = start + r.below(size - start);
                bad[at] = B(r.below(2) ? r.below(256) : u(bad[at]) ^ (1u << r.below(8)));
                res.bad_at[k] = at;
                T w{};
                std::span<const B> s{bad.data(), size + r.below(N - size + 1)};
                auto in = C::in(s, zpp::bits::alloc_limit<64>{});
                in.reset(start);
                res.bad_rcode[k] = int(std::errc(in(w)));
                res.bad_rpos[k] = in.position();
                if (!res.bad_rcode[k]) {
                    std::array<B, N> again{};
                    auto out = C::out(again);
                    (void)out(w);
                    for (std::size_t i = 0; i < out.position(); ++i) res.bad_value[k] = res.bad_value[k] * 1099511628211ull + u(again[i]) + 1;
                }
            }
        }
    }
    return res;
}

inline const char * named(int c) { return code_name(std::errc(c)); }
template <typename T, typename C, std::size_t N, std::uint64_t... Seeds>
struct entry
{
    static constexpr std::uint64_t seeds[] = {Seeds...};
    static constexpr Result<N> table[] = {run<T, C, N>(Seeds)...};

    static void check(eng::Ctx & ctx, const void * type)
    {
        auto name = static_cast<const char *>(type);
        auto k = ctx.src.below(sizeof...(Seeds));
        volatile std::uint64_t seed = seeds[k];
        auto a = run<T, C, N>(seed);
        auto & b = table[k];
        ctx.distinct(eng::hash_bytes(&k, sizeof k, eng::hash_bytes(C::name, std::strlen(C::name), eng::hash_bytes(name, std::strlen(name)))));
        if (b.written > 1) ctx.nontrivial();
        auto head = std::string(C::name) + " " + sh(name) + " seed " + std::to_string(seed);
        auto h = head.c_str();
        REQUIRE(a.wcode == b.wcode && a.written == b.written, "writing: %s, %zu bytes at compile time, %s, %zu at run time [%s]", named(b.wcode), b.written, named(a.wcode), a.written, h);
        REQUIRE(a.bytes == b.bytes, "compile time %s, run time %s [%s]", hex(b.bytes.data(), b.written).c_str(), hex(a.bytes.data(), a.written).c_str(), h);
        REQUIRE(a.gcode == b.gcode && a.gsize == b.gsize && a.same_growing == b.same_growing, "growing: %s, %zu bytes at compile time, %s, %zu at run time [%s]", named(b.gcode), b.gsize, named(a.gcode), a.gsize, h);
        REQUIRE(a.wcode ? a.wcode == int(std::errc::result_out_of_range) && a.gcode == 0 : a.same_growing && !a.gcode && a.gsize >= a.written, "growing and fixed outputs differ [%s]", h);
        REQUIRE(a.rcode == b.rcode && a.read == b.read && a.equal == b.equal, "reading: %s to %zu%s at compile time, %s to %zu%s at run time [%s]", named(b.rcode), b.read, b.equal ? "" : " (other value)",
            named(a.rcode), a.read, a.equal ? "" : " (other value)", h);
        REQUIRE(a.wcode || (!a.rcode && a.equal && a.read == a.written), "read back: %s, %s [%s]", named(a.rcode), a.equal ? "equal" : "other value", h);
        for (std::size_t i = 0; i < samples; ++i) {
            REQUIRE(a.cut_wcode[i] == b.cut_wcode[i] && a.cut_wpos[i] == b.cut_wpos[i] && a.cut_bytes[i] == b.cut_bytes[i], "writing into %zu bytes: %s at %zu at compile time, %s at %zu at run time [%s]", a.cut[i],
                named(b.cut_wcode[i]), b.cut_wpos[i], named(a.cut_wcode[i]), a.cut_wpos[i], h);
            REQUIRE(a.cut_rcode[i] == b.cut_rcode[i] && a.cut_rpos[i] == b.cut_rpos[i], "reading %zu bytes: %s at %zu at compile time, %s at %zu at run time [%s]", a.cut[i], named(b.cut_rcode[i]), b.cut_rpos[i],
                named(a.cut_rcode[i]), a.cut_rpos[i], h);
            REQUIRE(a.bad_rcode[i] == b.bad_rcode[i] && a.bad_rpos[i] == b.bad_rpos[i] && a.bad_value[i] == b.bad_value[i],
                "reading with byte %zu changed: %s at %zu at compile time, %s at %zu at run time%s [%s]", a.bad_at[i], named(b.bad_rcode[i]), b.bad_rpos[i], named(a.bad_rcode[i]), a.bad_rpos[i],
                a.bad_value[i] == b.bad_value[i] ? "" : " (other value)", h);
            if (a.bad_rcode[i]) ctx.label("rejected");
        }
        if (ctx.sampling()) ctx.sample("%s: %zu bytes %s", h, b.written, hex(b.bytes.data(), b.written).c_str());
    }
};

// to_bytes and from_bytes
template <typename T> constexpr T made(std::uint64_t seed) { Rng r{seed}; T t{}; mk_into(t, r); return t; }
template <typename T, std::uint64_t Seed>
struct literal
{
    static constexpr T value = made<T>(Seed);
    static constexpr T value2 = made<T>(Seed + 1);
    static constexpr auto bytes = zpp::bits::to_bytes<value>();
    static constexpr auto all = zpp::bits::to_bytes<value, value2, value>();
    static void check(eng::Ctx & ctx, const void * type)
    {
        auto name = static_cast<const char *>(type);
        std::vector<std::byte> data, three;
        zpp::bits::out out{data};
        REQUIRE(out(value) == OK, "%s", name);
        REQUIRE(zpp::bits::out{three}(value, value2, value) == OK, "%s", name);
        REQUIRE(data.size() == bytes.size() && std::equal(data.begin(), data.end(), bytes.begin()), "to_bytes: %s, run time %s [%s]", hex(std::data(bytes), bytes.size()).c_str(), hex(data.data(), data.size()).c_str(), name);
        REQUIRE(three.size() == all.size() && std::equal(three.begin(), three.end(), all.begin()), "to_bytes of 3: %s, run time %s [%s]", hex(std::data(all), all.size()).c_str(), hex(three.data(), three.size()).c_str(), name);
        if constexpr (bytes.size() != 0) {
            constexpr T one = zpp::bits::from_bytes<bytes, T>();
            constexpr auto tuple = zpp::bits::from_bytes<all, T, T, T>();
            static_assert(std::is_same_v<decltype(tuple), const std::tuple<T, T, T>>);
            REQUIRE(eq_of(one, value), "from_bytes: other value [%s]", name);
            REQUIRE(eq_of(std::get<0>(tuple), value) && eq_of(std::get<1>(tuple), value2) && eq_of(std::get<2>(tuple), value), "from_bytes of 3: other values [%s]", name);
        }
        ctx.distinct(eng::hash_bytes(name, std::strlen(name), Seed));
        if (data.size() > 1) ctx.nontrivial();
        if (ctx.sampling()) ctx.sample("to_bytes %s: %s", name, hex(std::data(all), all.size()).c_str());
    }
};
} // namespace c15
#define K_STRUCT(S, ...)                                                                           \
    template <> struct c15::Mem<S>                                                                 \
    {                                                                                              \
        static constexpr bool is = true;                                                           \
        static constexpr auto tie(auto & s) { return std::tie(__VA_ARGS__); }                      \
    };
