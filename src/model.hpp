// Independent reference model of the documented wire format: value generation, reference
// encoding and deep equality for every supported kind of type. Uses nothing of the library
// but the names of its wrapper types.
#pragma once
#include "engine.hpp"
#include "zpp_bits.h"
#include <array>
#include <bitset>
#include <cstring>
#include <deque>
#include <list>
#include <map>
#include <memory>
#include <optional>
#include <set>
#include <string>
#include <string_view>
#include <tuple>
#include <unordered_map>
#include <unordered_set>
#include <variant>
#include <vector>

namespace model
{
using eng::Src;
using Bytes = std::vector<unsigned char>;

enum : int { SP_NONE = 0, SP_1 = 1, SP_2 = 2, SP_4 = 4, SP_8 = 8, SP_VARINT = 16 };

struct Cfg
{
    bool swap = false;
    int size = SP_4;
};

struct Enc
{
    Bytes out;
    Cfg cfg;
    std::vector<std::pair<std::size_t, std::size_t>> * scalars = nullptr; // where multi-byte scalars are
    std::vector<std::pair<std::size_t, std::size_t>> * containers = nullptr; // (count, element size) of resizable containers
    std::vector<std::size_t> * lengths = nullptr; // announced lengths of strings and packed fields of messages
    std::size_t max_items = ~std::size_t{0}; // stop encoding elements (bounds the work on huge containers)

    void byte(unsigned v) { out.push_back(static_cast<unsigned char>(v)); }
    void raw(const void * p, std::size_t n)
    {
        auto b = static_cast<const unsigned char *>(p);
        out.insert(out.end(), b, b + n);
    }
    void scalar(const void * p, std::size_t n)
    {
        auto b = static_cast<const unsigned char *>(p);
        if (scalars && n > 1) scalars->emplace_back(out.size(), n);
        if (cfg.swap)
            for (std::size_t i = n; i--;) out.push_back(b[i]);
        else
            out.insert(out.end(), b, b + n);
    }
    template <typename T> void value(T v) { scalar(&v, sizeof(v)); }
    void varint(std::uint64_t v)
    {
        while (v >= 128) { byte(unsigned(v % 128) + 128); v /= 128; }
        byte(unsigned(v));
    }
    // Writes a size prefix; returns how many items it announces.
    std::size_t size(std::size_t n) { return size(n, cfg.size); }
    std::size_t size(std::size_t n, int policy)
    {
        switch (policy) {
        case SP_NONE: return n;
        case SP_1: value(std::uint8_t(n)); return std::uint8_t(n);
        case SP_2: value(std::uint16_t(n)); return std::uint16_t(n);
        case SP_4: value(std::uint32_t(n)); return std::uint32_t(n);
        case SP_8: value(std::uint64_t(n)); return n;
        default: varint(n); return n;
        }
    }
};

struct G
{
    Src & src;
    std::size_t max_len = 300000; // what the size policy in effect can express
    std::size_t archive_max = 300000; // what the archive's own size policy can express
    std::size_t budget = 400;     // total number of elements left
    int depth = 0;
    bool big = true;              // long byte-ish containers allowed
    int max_depth = 12;           // of pointers, optionals and variants
    unsigned keep = 2, of = 3;    // how often a pointer or optional holds something

    void limit(std::size_t n) { max_len = archive_max = n; }
    std::size_t length(std::size_t element_size, bool cheap)
    {
        std::size_t n;
        if (cheap && big && depth <= 2) {
            auto cap = std::size_t{300000} / (element_size ? element_size : 1);
            n = src.length(cap);
        } else {
            auto lim = depth <= 1 ? 20u : depth <= 3 ? 6u : 3u;
            n = src.small(lim);
            if (n > budget) n = budget;
            if (depth <= 1 && big && src.below(80) == 79) n = src.below(301);
        }
        if (n > max_len) n = max_len;
        if (!cheap) budget -= n <= 40 && n < budget ? n : budget / 2;
        return n;
    }
};
struct Deeper
{
    G & g;
    explicit Deeper(G & g) : g(g) { ++g.depth; }
    ~Deeper() { --g.depth; }
};
struct MaxLen
{
    G & g;
    std::size_t saved;
    MaxLen(G & g, std::size_t n) : g(g), saved(g.max_len) { g.max_len = n; }
    ~MaxLen() { g.max_len = saved; }
};

// The elements of an item with a size policy of its own are subject to the archive's.
struct Elements : MaxLen
{
    explicit Elements(G & g) : MaxLen(g, g.archive_max) {}
};

template <typename T> struct M;

// Defaults shared by all models.
template <typename T>
struct Base
{
    static T fresh() { return T{}; }
    static constexpr bool hostile = true;  // every byte pattern is a valid representation
    static constexpr bool ordered = true;  // encoding order is a function of the value
    static constexpr bool cheap = false;   // scalars: containers of them may be long
};

template <typename T> concept Scalar = std::is_arithmetic_v<T> || std::is_enum_v<T>;

template <Scalar T>
struct M<T> : Base<T>
{
    static constexpr bool hostile = !std::is_same_v<T, bool>;
    static constexpr bool cheap = true;
    static constexpr std::size_t min_bytes = sizeof(T);
    static void gen(G & g, T & v)
    {
        if constexpr (std::is_same_v<T, bool>) {
            v = g.src.flip();
        } else if constexpr (std::is_floating_point_v<T>) {
            static const double edge[] = {0.0, -0.0, 1.0, -1.5, 1e300, 5e-324, 3.25,
                                          std::numeric_limits<double>::infinity(),
                                          std::numeric_limits<double>::quiet_NaN()};
            switch (g.src.below(3)) {
            case 0: v = T(edge[g.src.below(8)]); break;   // 8: NaN excluded by count below
            case 1: { auto b = g.src.bits(); std::memcpy(&v, &b, sizeof(v)); break; }
            default: v = T(double(std::int64_t(g.src.interesting(40))) / 8.0); break;
            }
        } else {
            auto b = g.src.interesting(sizeof(T) * 8);
            std::memcpy(&v, &b, sizeof(v));
        }
    }
    static void enc(const T & v, Enc & e) { e.scalar(&v, sizeof(v)); }
    static bool eq(const T & a, const T & b) { return !std::memcmp(&a, &b, sizeof(a)); }
};

template <>
struct M<std::monostate> : Base<std::monostate>
{
    static constexpr std::size_t min_bytes = 0;
    static void gen(G &, std::monostate &) {}
    static void enc(const std::monostate &, Enc &) {}
    static bool eq(const std::monostate &, const std::monostate &) { return true; }
};

// ------------------------------------------------------------------ varint
template <typename T> struct raw_int { using type = T; };
template <typename T> requires std::is_enum_v<T>
struct raw_int<T> { using type = std::underlying_type_t<T>; };

template <typename T, zpp::bits::varint_encoding E>
struct M<zpp::bits::varint<T, E>> : Base<zpp::bits::varint<T, E>>
{
    using V = zpp::bits::varint<T, E>;
    using I = typename raw_int<T>::type;
    using U = std::make_unsigned_t<I>;
    static constexpr bool cheap = false;
    static constexpr std::size_t min_bytes = 1;
    static void gen(G & g, V & v) { M<T>::gen(g, v.value); }
    static void enc(const V & v, Enc & e) { e.varint(wire(v.value)); }
    static std::uint64_t wire(T t)
    {
        I i;
        std::memcpy(&i, &t, sizeof(i));
        if constexpr (E == zpp::bits::varint_encoding::zig_zag) {
            // 0,-1,1,-2,... -> 0,1,2,3,...
            if constexpr (std::is_signed_v<I>) {
                if (i < 0) return std::uint64_t(U(~U(i))) * 2 + 1;
            }
            return std::uint64_t(U(i)) * 2;
        } else {
            return U(i);
        }
    }
    static bool eq(const V & a, const V & b) { return M<T>::eq(a.value, b.value); }
};

// ------------------------------------------------------------------ containers
template <typename C>
struct SeqModel : Base<C>
{
    using T = typename C::value_type;
    static constexpr bool hostile = M<T>::hostile;
    static constexpr bool ordered = M<T>::ordered;
    static constexpr std::size_t min_bytes = 0;
    static void gen(G & g, C & c)
    {
        Deeper d{g};
        std::size_t n = g.length(sizeof(T), M<T>::cheap);
        Elements inner{g};
        c.clear();
        c.resize(n);
        if (n > 40 && M<T>::cheap) {
            // long: contents derived from one choice
            auto x = g.src.below(1u << 20) + 1;
            std::size_t i = 0;
            for (auto & v : c) {
                std::uint64_t b = (x + i++) * 0x9e3779b97f4a7c15ull;
                b ^= b >> 29;
                if constexpr (std::is_same_v<T, bool>) v = b & 1;
                else std::memcpy(static_cast<void *>(&v), &b, sizeof(T) < 8 ? sizeof(T) : 8);
            }
        } else {
            for (auto & v : c) M<T>::gen(g, v);
        }
    }
    static void items(const C & c, Enc & e, std::size_t n)
    {
        if (e.containers) e.containers->emplace_back(c.size(), sizeof(T));
        for (auto & v : c) {
            if (!n--) break;
            M<T>::enc(v, e);
        }
    }
    static void enc(const C & c, Enc & e) { items(c, e, e.size(c.size())); }
    static void enc_sized(const C & c, Enc & e, int policy) { items(c, e, e.size(c.size(), policy)); }
    static bool eq(const C & a, const C & b)
    {
        if (a.size() != b.size()) return false;
        auto j = b.begin();
        for (auto i = a.begin(); i != a.end(); ++i, ++j)
            if (!M<T>::eq(*i, *j)) return false;
        return true;
    }
};
template <typename T, typename A> struct M<std::vector<T, A>> : SeqModel<std::vector<T, A>> {};
template <typename T, typename A> struct M<std::list<T, A>> : SeqModel<std::list<T, A>> {};
template <typename T, typename A> struct M<std::deque<T, A>> : SeqModel<std::deque<T, A>> {};
template <typename T, typename R, typename A>
struct M<std::basic_string<T, R, A>> : SeqModel<std::basic_string<T, R, A>> {};

template <typename T, std::size_t N>
struct M<T[N]>
{
    static constexpr bool hostile = M<T>::hostile;
    static constexpr bool ordered = M<T>::ordered;
    static constexpr bool cheap = false;
    static constexpr std::size_t min_bytes = N * M<T>::min_bytes;
    static void gen(G & g, T (&a)[N]) { Deeper d{g}; for (auto & v : a) M<T>::gen(g, v); }
    static void enc(const T (&a)[N], Enc & e) { for (auto & v : a) M<T>::enc(v, e); }
    static bool eq(const T (&a)[N], const T (&b)[N])
    {
        for (std::size_t i = 0; i < N; ++i) if (!M<T>::eq(a[i], b[i])) return false;
        return true;
    }
};
template <typename T, std::size_t N>
struct M<std::array<T, N>> : Base<std::array<T, N>>
{
    using A = std::array<T, N>;
    static constexpr bool hostile = M<T>::hostile;
    static constexpr bool ordered = M<T>::ordered;
    static constexpr std::size_t min_bytes = N * M<T>::min_bytes;
    static void gen(G & g, A & a) { Deeper d{g}; for (auto & v : a) M<T>::gen(g, v); }
    static void enc(const A & a, Enc & e) { for (auto & v : a) M<T>::enc(v, e); }
    static bool eq(const A & a, const A & b)
    {
        for (std::size_t i = 0; i < N; ++i) if (!M<T>::eq(a[i], b[i])) return false;
        return true;
    }
};

// Associative containers. Keys have operator<, == and a hash.
template <typename C, bool Ordered>
struct AssocModel : Base<C>
{
    using K = typename C::key_type;
    static constexpr bool is_map = requires { typename C::mapped_type; };
    template <typename X> struct mapped { using type = std::monostate; };
    template <typename X> requires requires { typename X::mapped_type; }
    struct mapped<X> { using type = typename X::mapped_type; };
    using V = typename mapped<C>::type;
    static constexpr bool hostile = M<K>::hostile && M<V>::hostile;
    static constexpr bool ordered = Ordered && M<K>::ordered && M<V>::ordered;
    static constexpr std::size_t min_bytes = 0;

    static void gen(G & g, C & c)
    {
        Deeper d{g};
        auto n = g.length(1, false);
        Elements inner{g};
        c.clear();
        for (std::size_t i = 0; i < n; ++i) {
            K k = M<K>::fresh();
            M<K>::gen(g, k);
            if constexpr (is_map) {
                V v = M<V>::fresh();
                M<V>::gen(g, v);
                c.emplace(std::move(k), std::move(v));
            } else {
                c.insert(std::move(k));
            }
        }
    }
    static void items(const C & c, Enc & e, std::size_t n)
    {
        for (auto & x : c) {
            if (!n--) break;
            if constexpr (is_map) { M<K>::enc(x.first, e); M<V>::enc(x.second, e); }
            else M<K>::enc(x, e);
        }
    }
    static void enc(const C & c, Enc & e) { items(c, e, e.size(c.size())); }
    static void enc_sized(const C & c, Enc & e, int policy) { items(c, e, e.size(c.size(), policy)); }
    static bool eq(const C & a, const C & b)
    {
        if (a.size() != b.size()) return false;
        if constexpr (Ordered) {
            auto j = b.begin();
            for (auto i = a.begin(); i != a.end(); ++i, ++j) {
                if constexpr (is_map) {
                    if (!M<K>::eq(i->first, j->first) || !M<V>::eq(i->second, j->second)) return false;
                } else if (!M<K>::eq(*i, *j)) return false;
            }
            return true;
        } else {
            // multiset comparison through find over equal ranges
            for (auto i = a.begin(); i != a.end(); ++i) {
                const K * k;
                if constexpr (is_map) k = &i->first; else k = &*i;
                if (a.count(*k) != b.count(*k)) return false;
                auto [lo, hi] = b.equal_range(*k);
                bool found = false;
                for (auto j = lo; j != hi && !found; ++j) {
                    if constexpr (is_map) found = M<V>::eq(i->second, j->second);
                    else found = true;
                }
                if (!found) return false;
            }
            return true;
        }
    }
};
template <typename... X> struct M<std::map<X...>> : AssocModel<std::map<X...>, true> {};
template <typename... X> struct M<std::set<X...>> : AssocModel<std::set<X...>, true> {};
template <typename... X> struct M<std::multimap<X...>> : AssocModel<std::multimap<X...>, true> {};
template <typename... X> struct M<std::multiset<X...>> : AssocModel<std::multiset<X...>, true> {};
template <typename... X> struct M<std::unordered_map<X...>> : AssocModel<std::unordered_map<X...>, false> {};
template <typename... X> struct M<std::unordered_set<X...>> : AssocModel<std::unordered_set<X...>, false> {};
template <typename... X> struct M<std::unordered_multimap<X...>> : AssocModel<std::unordered_multimap<X...>, false> {};
template <typename... X> struct M<std::unordered_multiset<X...>> : AssocModel<std::unordered_multiset<X...>, false> {};

// ------------------------------------------------------------------ products
template <typename A, typename B>
struct M<std::pair<A, B>>
{
    using P = std::pair<A, B>;
    static P fresh() { return P{}; }
    static constexpr bool hostile = M<A>::hostile && M<B>::hostile;
    static constexpr bool ordered = M<A>::ordered && M<B>::ordered;
    static constexpr bool cheap = false;
    static constexpr std::size_t min_bytes = M<A>::min_bytes + M<B>::min_bytes;
    static void gen(G & g, P & p) { Deeper d{g}; M<A>::gen(g, p.first); M<B>::gen(g, p.second); }
    static void enc(const P & p, Enc & e) { M<A>::enc(p.first, e); M<B>::enc(p.second, e); }
    static bool eq(const P & a, const P & b) { return M<A>::eq(a.first, b.first) && M<B>::eq(a.second, b.second); }
};
template <typename... T>
struct M<std::tuple<T...>>
{
    using P = std::tuple<T...>;
    static P fresh() { return P{}; }
    static constexpr bool hostile = (... && M<T>::hostile);
    static constexpr bool ordered = (... && M<T>::ordered);
    static constexpr bool cheap = false;
    static constexpr std::size_t min_bytes = (0 + ... + M<T>::min_bytes);
    static void gen(G & g, P & p) { Deeper d{g}; std::apply([&](auto &... v) { (M<T>::gen(g, v), ...); }, p); }
    static void enc(const P & p, Enc & e) { std::apply([&](auto &... v) { (M<T>::enc(v, e), ...); }, p); }
    static bool eq(const P & a, const P & b)
    {
        return [&]<std::size_t... I>(std::index_sequence<I...>) {
            return (... && M<T>::eq(std::get<I>(a), std::get<I>(b)));
        }(std::index_sequence_for<T...>{});
    }
};

// A struct whose model ties its members in wire order.
template <typename S, typename Self>
struct StructModel
{
    static S fresh() { return S{}; }
    static constexpr bool cheap = false;
    static void gen(G & g, S & s)
    {
        Deeper d{g};
        std::apply([&](auto &... v) { (M<std::remove_cvref_t<decltype(v)>>::gen(g, v), ...); }, Self::tie(s));
    }
    static void enc(const S & s, Enc & e)
    {
        std::apply([&](auto &... v) { (M<std::remove_cvref_t<decltype(v)>>::enc(v, e), ...); }, Self::tie(s));
    }
    static bool eq(const S & a, const S & b)
    {
        auto x = Self::tie(a);
        auto y = Self::tie(b);
        return [&]<std::size_t... I>(std::index_sequence<I...>) {
            return (... && M<std::remove_cvref_t<decltype(std::get<I>(x))>>::eq(std::get<I>(x), std::get<I>(y)));
        }(std::make_index_sequence<std::tuple_size_v<decltype(x)>>{});
    }
};
#define MODEL_STRUCT(S, ...)                                                                       \
    template <> struct model::M<S> : model::StructModel<S, model::M<S>>                            \
    {                                                                                              \
        static S fresh() { return S{}; }                                                           \
        static auto tie(auto & s) { (void)s; return std::tie(__VA_ARGS__); }                       \
        static constexpr bool hostile = true, ordered = true;                                      \
        static constexpr std::size_t min_bytes = 0;                                                \
    };
// Same for a self referencing type, where the traits cannot be computed from the members.
#define MODEL_RECURSIVE(S, HOSTILE, ORDERED, MIN, ...)                                             \
    template <> struct model::M<S> : model::StructModel<S, model::M<S>>                            \
    {                                                                                              \
        static auto tie(auto & s) { return std::tie(__VA_ARGS__); }                                \
        static constexpr bool hostile = HOSTILE;                                                   \
        static constexpr bool ordered = ORDERED;                                                   \
        static constexpr std::size_t min_bytes = MIN;                                              \
    };

// ------------------------------------------------------------------ sums and indirections
template <typename T>
struct M<std::optional<T>> : Base<std::optional<T>>
{
    using O = std::optional<T>;
    static constexpr bool hostile = M<T>::hostile;
    static constexpr bool ordered = M<T>::ordered;
    static constexpr std::size_t min_bytes = 1;
    static void gen(G & g, O & o)
    {
        Deeper d{g};
        if (g.depth > g.max_depth || !g.budget || !g.src.flip(g.keep, g.of)) { o.reset(); return; }
        T t = M<T>::fresh();
        M<T>::gen(g, t);
        o.emplace(std::move(t));
    }
    static void enc(const O & o, Enc & e) { e.byte(o ? 1 : 0); if (o) M<T>::enc(*o, e); }
    static bool eq(const O & a, const O & b) { return bool(a) == bool(b) && (!a || M<T>::eq(*a, *b)); }
};
template <typename P, bool Nullable>
struct PtrModel : Base<P>
{
    using T = typename P::element_type;
    static constexpr bool hostile = true;  // refined by the users of recursive types
    static constexpr bool ordered = true;
    static constexpr std::size_t min_bytes = Nullable ? 1 : 0;
    static void gen(G & g, P & p)
    {
        Deeper d{g};
        if (Nullable && (g.depth > g.max_depth || !g.budget || !g.src.flip(g.keep, g.of))) { p = nullptr; return; }
        if (g.budget) --g.budget;
        p = P(new T(M<T>::fresh()));
        M<T>::gen(g, *p);
    }
    static void enc(const P & p, Enc & e)
    {
        if (Nullable) e.byte(p ? 1 : 0);
        if (p) M<T>::enc(*p, e);
    }
    static bool eq(const P & a, const P & b)
    {
        if (!a || !b) return !a && !b;
        return a.get() != b.get() && M<T>::eq(*a, *b);
    }
};
template <typename T> struct M<std::unique_ptr<T>> : PtrModel<std::unique_ptr<T>, false> {};
template <typename T> struct M<std::shared_ptr<T>> : PtrModel<std::shared_ptr<T>, false> {};
template <typename T> struct M<zpp::bits::optional_ptr<T>> : PtrModel<zpp::bits::optional_ptr<T>, true> {};

template <typename... T>
struct M<std::variant<T...>>
{
    using V = std::variant<T...>;
    static V fresh() { return make(std::index_sequence_for<T...>{}); }
    template <std::size_t I0, std::size_t... I> static V make(std::index_sequence<I0, I...>)
    {
        using F = std::variant_alternative_t<0, V>;
        return V{std::in_place_index<0>, M<F>::fresh()};
    }
    static constexpr bool hostile = (... && M<T>::hostile);
    static constexpr bool ordered = (... && M<T>::ordered);
    static constexpr bool cheap = false;
    static constexpr std::size_t min_bytes = 1;
    static void gen(G & g, V & v)
    {
        Deeper d{g};
        auto i = g.depth > g.max_depth || !g.budget ? 0 : g.src.below(sizeof...(T));
        [&]<std::size_t... I>(std::index_sequence<I...>) {
            (..., [&] {
                if (I != i) return;
                using X = std::variant_alternative_t<I, V>;
                X x = M<X>::fresh();
                M<X>::gen(g, x);
                v.template emplace<I>(std::move(x));
            }());
        }(std::index_sequence_for<T...>{});
    }
    static void enc(const V & v, Enc & e)
    {
        [&]<std::size_t... I>(std::index_sequence<I...>) {
            (..., [&] {
                if (I != v.index()) return;
                using X = std::variant_alternative_t<I, V>;
                if constexpr (requires { M<X>::id(e); }) M<X>::id(e);
                else e.byte(I);
                M<X>::enc(std::get<I>(v), e);
            }());
        }(std::index_sequence_for<T...>{});
    }
    static bool eq(const V & a, const V & b)
    {
        if (a.index() != b.index()) return false;
        return [&]<std::size_t... I>(std::index_sequence<I...>) {
            return (... && (I != a.index() || M<std::variant_alternative_t<I, V>>::eq(std::get<I>(a), std::get<I>(b))));
        }(std::index_sequence_for<T...>{});
    }
};

template <std::size_t N>
struct M<std::bitset<N>> : Base<std::bitset<N>>
{
    using B = std::bitset<N>;
    static constexpr std::size_t min_bytes = (N + 7) / 8;
    static void gen(G & g, B & b)
    {
        switch (g.src.below(4)) {
        case 0: b.reset(); break;
        case 1: b.set(); break;
        case 2: b.reset(); b.set(g.src.below(N)); break;
        default:
            for (std::size_t i = 0; i < N; i += 64) {
                auto x = g.src.bits();
                for (std::size_t j = 0; j < 64 && i + j < N; ++j) b[i + j] = x >> j & 1;
            }
        }
    }
    static void enc(const B & b, Enc & e)
    {
        for (std::size_t i = 0; i < N; i += 8) {
            unsigned v = 0;
            for (std::size_t j = 0; j < 8 && i + j < N; ++j) v |= unsigned(b[i + j]) << j;
            e.byte(v);
        }
    }
    static bool eq(const B & a, const B & b) { return a == b; }
};

// sized_t<Container, SizeType>
template <typename S> struct size_policy;
template <> struct size_policy<std::uint8_t> { static constexpr int value = SP_1; static constexpr std::size_t max = 255; };
template <> struct size_policy<std::uint16_t> { static constexpr int value = SP_2; static constexpr std::size_t max = 65535; };
template <> struct size_policy<std::uint32_t> { static constexpr int value = SP_4; static constexpr std::size_t max = 300000; };
template <> struct size_policy<std::uint64_t> { static constexpr int value = SP_8; static constexpr std::size_t max = 300000; };
template <> struct size_policy<zpp::bits::vsize_t> { static constexpr int value = SP_VARINT; static constexpr std::size_t max = 300000; };
template <typename C, typename S> requires (!std::is_void_v<S>)
struct M<zpp::bits::sized_item<C, S>> : Base<zpp::bits::sized_item<C, S>>
{
    using T = zpp::bits::sized_item<C, S>;
    static constexpr bool hostile = M<C>::hostile;
    static constexpr bool ordered = M<C>::ordered;
    static constexpr std::size_t min_bytes = 1;
    static void gen(G & g, T & t) { MaxLen m{g, size_policy<S>::max}; M<C>::gen(g, t); }
    static void enc(const T & t, Enc & e) { M<C>::enc_sized(t, e, size_policy<S>::value); }
    static bool eq(const T & a, const T & b) { return M<C>::eq(a, b); }
};
} // namespace model
