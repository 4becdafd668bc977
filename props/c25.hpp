// C25: size prefixes follow the selected size policy.
#pragma once
#include "common.hpp"
#include "configs.hpp"
#include <span>

namespace cfgs
{
ARCHIVE_CFG(nosize, std::byte, vb, false, model::SP_NONE, true, no_size{})
ARCHIVE_CFG(big_nosize, char, vc, true, model::SP_NONE, true, e::big{}, no_size{})
ARCHIVE_CFG(s4_varint, std::byte, vb, false, model::SP_4, true, size4b{}, size_varint{}) // the first one counts
}

namespace c25
{
using model::Enc;
using model::M;
using zpp::bits::sized_t;
using zpp::bits::unsized_t;

enum class shade : std::uint16_t {};
struct pod { std::uint16_t a{}, b{}; auto operator<=>(const pod &) const = default; };
struct mixed { std::uint8_t a{}; std::uint32_t b{}; std::string s; };

struct nobody {}; // no size type

template <typename S> struct policy { static constexpr int value = model::size_policy<S>::value; };
template <> struct policy<void> { static constexpr int value = model::SP_NONE; };
template <> struct policy<zpp::bits::varint<std::uint32_t>> { static constexpr int value = model::SP_VARINT; };
} // namespace c25
MODEL_STRUCT(c25::pod, s.a, s.b)
MODEL_STRUCT(c25::mixed, s.a, s.b, s.s)

namespace c25
{
// The i-th element of a container, distinct for distinct i where the type allows.
template <typename T>
void element(T & v, std::uint64_t i, std::uint64_t salt)
{
    if constexpr (std::is_same_v<T, bool>) v = (i ^ salt) & 1;
    else if constexpr (std::is_floating_point_v<T>) v = static_cast<T>(static_cast<double>(i) * 0.5 + static_cast<double>(salt % 64));
    else if constexpr (model::Scalar<T>) { std::uint64_t x = i * 0x9e3779b1u + salt; std::memcpy(&v, &x, sizeof v); }
    else if constexpr (zpp::bits::concepts::varint<T>) element(v.value, i, salt);
    else if constexpr (requires { v.first; v.second; }) { element(v.first, i, salt); element(v.second, i, salt >> 1); }
    else if constexpr (std::is_same_v<T, pod>) { element(v.a, i, salt); element(v.b, i, salt >> 3); }
    else if constexpr (std::is_same_v<T, mixed>) { element(v.a, i, salt); element(v.b, i, salt); element(v.s, i, salt); }
    else {
        v.clear();
        for (auto x = i, k = x; k < i + 1 + salt % 3 || x; x /= 64, ++k) {
            typename T::value_type c{};
            element(c, x % 64, salt % 5 == 1 ? salt : 1);
            if constexpr (requires { v.push_back(std::move(c)); }) v.push_back(std::move(c));
            else v.insert(std::move(c));
        }
    }
}

template <typename T>
void fill(T & c, std::size_t n, std::uint64_t salt)
{
    c.clear();
    if constexpr (requires { typename T::key_type; }) {
        for (std::size_t i = 0; i < n; ++i) {
            if constexpr (requires { typename T::mapped_type; }) {
                typename T::key_type k{};
                typename T::mapped_type v{};
                element(k, i, salt);
                element(v, i, salt >> 2);
                c.emplace(std::move(k), std::move(v));
            } else {
                typename T::key_type k{};
                element(k, i, salt);
                c.insert(std::move(k));
            }
        }
    } else {
        c.resize(n);
        std::size_t i = 0;
        for (auto & v : c) element(v, i++, salt);
    }
}
// What a reader gets of a container of which only n elements were announced.
template <typename T>
T first(const T & c, std::size_t n)
{
    T r;
    for (auto & x : c) {
        if (!n--) break;
        if constexpr (requires { r.push_back(x); }) r.push_back(x);
        else r.insert(x);
    }
    return r;
}
inline std::size_t announced(std::size_t n, int p)
{
    switch (p) {
    case model::SP_1: return n & 0xff;
    case model::SP_2: return n & 0xffff;
    case model::SP_4: return n & 0xffffffff;
    default: return n;
    }
}
inline std::size_t length(eng::Ctx & ctx, int p, bool cheap, std::size_t & kind)
{
    kind = ctx.src.below(p == model::SP_1 || p == model::SP_2 ? 8 : 5);
    std::size_t n;
    if (kind < 3) n = ctx.src.small(20);
    else if (kind < 4 || !cheap) n = (ctx.src.below(3) + 1) * 128 + ctx.src.below(5) - 2;
    else if (kind < 5) n = 254 + ctx.src.below(5);
    else if (p == model::SP_1) n = 256 * ctx.src.below(4) + 253 + ctx.src.below(7);
    else n = ctx.src.flip(1, 3) ? 65536 * (1 + ctx.src.below(2)) + ctx.src.below(7) - 3 : 256 * ctx.src.below(4) + 253 + ctx.src.below(7);
    return n;
}

template <typename T> constexpr bool assoc = requires { typename T::key_type; };

// A container in every position where its size policy can be chosen.
template <typename T, typename S>
struct holder // members of one struct, each with its own policy
{
    std::uint16_t a{};
    T v;
    std::string s;
    constexpr static auto serialize(auto & archive, auto & self)
    {
        return archive(self.a, zpp::bits::sized<S>(self.v), self.s);
    }
};
template <typename T, typename S>
struct typed // the policy is part of the member's type
{
    std::uint8_t a{};
    sized_t<T, S> v;
    std::uint8_t b{};
};

enum { k_plain, k_fn, k_fn_const, k_type, k_holder, k_typed, k_tuple, k_optional, k_array, k_kinds };
constexpr const char * kinds[] = {"plain", "sized()", "const sized()", "sized_t", "sized() of a member", "sized_t member", "tuple of sized_t", "optional sized_t", "array of sized_t"};

template <typename T, typename C, typename S>
struct test
{
    static constexpr int P = policy<S>::value;
    static constexpr bool unsized_archive = C::cfg.size == model::SP_NONE;

    struct Case
    {
        int kind;
        T value, second;
        std::size_t n, m;
        std::uint16_t mark;
        std::string tail;
    };

    static void expect(const Case & c, Enc & e)
    {
        auto put = [&](const T & v, int p) { M<T>::enc_sized(v, e, p); };
        e.value(c.mark);
        switch (c.kind) {
        case k_plain: put(c.value, C::cfg.size); break;
        case k_holder: e.value(c.mark); put(c.value, P); M<std::string>::enc(c.tail, e); break;
        case k_typed: e.byte(7); put(c.value, P); e.byte(9); break;
        case k_tuple: put(c.value, P); e.byte(3); put(c.second, C::cfg.size); break;
        case k_optional: e.byte(1); put(c.value, P); break;
        case k_array: put(c.value, P); put(c.second, P); break;
        default: put(c.value, P);
        }
        M<std::string>::enc(c.tail, e);
    }
    static std::errc write(const Case & c, auto && archive)
    {
        switch (c.kind) {
        case k_plain: return archive(c.mark, c.value, c.tail);
        case k_fn: return archive(c.mark, zpp::bits::sized<S>(const_cast<T &>(c.value)), c.tail); // a copy of an unordered container has another order
        case k_fn_const: { auto item = zpp::bits::sized<S>(c.value); return archive(c.mark, item, c.tail); }
        case k_type: { sized_t<T, S> v{c.value}; return archive(c.mark, v, c.tail); }
        case k_holder: { holder<T, S> h{c.mark, c.value, c.tail}; return archive(c.mark, h, c.tail); }
        case k_typed: { typed<T, S> t{7, c.value, 9}; return archive(c.mark, t, c.tail); }
        case k_tuple: { std::tuple<sized_t<T, S>, std::uint8_t, T> t{c.value, 3, c.second}; return archive(c.mark, t, c.tail); }
        case k_optional: { std::optional<sized_t<T, S>> t{sized_t<T, S>{c.value}}; return archive(c.mark, t, c.tail); }
        default: { std::array<sized_t<T, S>, 2> t{sized_t<T, S>{c.value}, sized_t<T, S>{c.second}}; return archive(c.mark, t, c.tail); }
        }
    }
    // Targets of an unsized read have the length that is read.
    static T target(eng::Ctx & ctx, const T & want, int p)
    {
        T t;
        if (p == model::SP_NONE) {
            if constexpr (!assoc<T>) t.resize(want.size());
        } else {
            fill(t, ctx.src.small(6), 99);
        }
        return t;
    }
    static void read(eng::Ctx & ctx, const Case & c, int kind, auto && archive, const char * name)
    {
        std::uint16_t mark{};
        std::string tail(unsized_archive ? c.tail.size() : ctx.src.small(3), 'x');
        auto value = first(c.value, announced(c.value.size(), kind == k_plain ? C::cfg.size : P));
        auto second = first(c.second, announced(c.second.size(), kind == k_tuple ? C::cfg.size : P));
        auto same = [&](const T & got, const T & want, const char * what) {
            REQUIRE(M<T>::eq(got, want), "%s: %s read as %s: %zu elements, expected %zu%s", name, what, kinds[kind], got.size(), want.size(), got.size() == want.size() ? " other ones" : "");
        };
        std::errc r;
        switch (kind) {
        case k_plain: { T t = target(ctx, value, C::cfg.size); r = archive(mark, t, tail); if (r == OK) same(t, value, "value"); break; }
        case k_fn: { T t = target(ctx, value, P); r = archive(mark, zpp::bits::sized<S>(t), tail); if (r == OK) same(t, value, "value"); break; }
        case k_fn_const: { T t = target(ctx, value, P); auto item = zpp::bits::sized<S>(t); r = archive(mark, item, tail); if (r == OK) same(t, value, "value"); break; }
        case k_type: { sized_t<T, S> t{target(ctx, value, P)}; r = archive(mark, t, tail); if (r == OK) same(t, value, "value"); break; }
        case k_holder: {
            holder<T, S> h{0, target(ctx, value, P), std::string(unsized_archive ? c.tail.size() : 0, ' ')};
            r = archive(mark, h, tail);
            if (r == OK) { same(h.v, value, "member"); REQUIRE(h.a == c.mark && M<std::string>::eq(h.s, c.tail), "%s: the members next to a sized one differ", name); }
            break;
        }
        case k_typed: {
            typed<T, S> t{0, target(ctx, value, P), 0};
            r = archive(mark, t, tail);
            if (r == OK) { same(t.v, value, "member"); REQUIRE(t.a == 7 && t.b == 9, "%s: the members next to a sized one differ", name); }
            break;
        }
        case k_tuple: {
            std::tuple<sized_t<T, S>, std::uint8_t, T> t{target(ctx, value, P), 0, target(ctx, second, C::cfg.size)};
            r = archive(mark, t, tail);
            if (r == OK) { same(std::get<0>(t), value, "element"); same(std::get<2>(t), second, "element of default size"); REQUIRE(std::get<1>(t) == 3, "%s: the element next to a sized one differs", name); }
            break;
        }
        case k_optional: {
            std::optional<sized_t<T, S>> t;
            r = archive(mark, t, tail);
            if (r == OK) { REQUIRE(t.has_value(), "%s: no value", name); same(*t, value, "optional"); }
            break;
        }
        default: {
            std::array<sized_t<T, S>, 2> t{sized_t<T, S>{target(ctx, value, P)}, sized_t<T, S>{target(ctx, second, P)}};
            r = archive(mark, t, tail);
            if (r == OK) { same(t[0], value, "element"); same(t[1], second, "element"); }
        }
        }
        REQUIRE(r == OK, "%s: reading %s of %zu elements as %s: %s", name, kinds[c.kind], c.value.size(), kinds[kind], code_name(r));
        REQUIRE(mark == c.mark && tail == c.tail, "%s: the items next to a sized one differ", name);
        REQUIRE(archive.position() == archive.data().size() && archive.remaining_data().empty(), "%s: %zu of %zu bytes read", name, archive.position(), archive.data().size());
    }

    static void run(eng::Ctx & ctx, const void *)
    {
        Case c;
        c.kind = int(ctx.src.below(requires { typename T::hasher; } ? k_fn_const + 1 : k_kinds));
        auto p = c.kind == k_plain ? C::cfg.size : P;
        constexpr bool cheap = std::is_trivially_copyable_v<typename T::value_type> && !assoc<T>;
        std::size_t which;
        auto salt = ctx.src.below(1 << 20);
        fill(c.value, length(ctx, p, cheap, which), salt);
        if (c.kind == k_tuple || c.kind == k_array) fill(c.second, ctx.src.flip(1, 4) ? length(ctx, C::cfg.size, cheap, which) : ctx.src.small(5), salt + 1);
        c.mark = std::uint16_t(ctx.src.bits());
        c.tail = std::string(ctx.src.small(4), 'z');
        const char * name = kinds[c.kind];
        Enc e;
        e.cfg = C::cfg;
        expect(c, e);

        typename C::container data;
        auto r = write(c, C::out(data));
        REQUIRE(r == OK && data.size() == e.out.size() && equal_bytes(data.data(), e.out.data(), data.size()), "%s of %zu elements: %s: %s (%zu), expected %s (%zu)", name, c.value.size(), code_name(r),
                hex(data.data(), data.size()).c_str(), data.size(), hex(e.out).c_str(), e.out.size());
        if (ctx.src.flip(1, 4)) {
            auto room = e.out.size() - ctx.src.below(2);
            Exact mem(Bytes(room, 0xaa));
            std::span<typename C::byte> s{reinterpret_cast<typename C::byte *>(mem.p), mem.n};
            auto q = write(c, C::out(s));
            if (room == e.out.size()) REQUIRE(q == OK && equal_bytes(mem.p, e.out.data(), room), "%s of %zu elements into %zu bytes: %s", name, c.value.size(), room, code_name(q));
            else REQUIRE(q == std::errc::result_out_of_range, "%s of %zu elements into %zu of %zu bytes: %s", name, c.value.size(), room, e.out.size(), code_name(q));
            ctx.label("exact buffer");
        }
        // read in the way it was written, or in another one with the same layout
        auto kind = c.kind;
        if (kind == k_plain ? C::cfg.size == P : kind <= k_type) {
            int ways[] = {k_fn, k_fn_const, k_type, k_plain};
            kind = ways[ctx.src.below(C::cfg.size == P ? 4 : 3)];
        }
        // nothing tells how long an element made by the reader or an unsized set is to be
        constexpr bool own = P == model::SP_NONE;
        if (kind == k_optional && own) kind = -1;
        using V = typename T::value_type;
        constexpr bool readable = !(assoc<T> && (own || unsized_archive)) && !(assoc<V> && unsized_archive);
        // unsized containers of containers: the reader's elements are empty
        if constexpr (requires(V v) { v.resize(1); } || std::is_same_v<V, mixed>) {
            if (unsized_archive) kind = -1;
        }
        if (kind >= 0) {
            if constexpr (readable) {
                Exact mem(e.out);
                std::span<const typename C::byte> s{reinterpret_cast<const typename C::byte *>(mem.p), mem.n};
                read(ctx, c, kind, C::in(s), C::name);
            }
            if (announced(c.value.size(), p) != c.value.size()) ctx.label("more items than the size type holds");
        }
        if (c.value.size()) ctx.nontrivial();
        ctx.label(name);
        if (ctx.sampling()) ctx.sample("%s %s of %zu: %s", C::name, name, c.value.size(), hex(e.out, 24).c_str());
    }
};

// Fixed extents have no size prefix whatever is asked for.
template <typename E, typename C, typename S>
struct fixed
{
    static void run(eng::Ctx & ctx, const void *)
    {
        auto salt = ctx.src.below(1 << 20);
        std::array<E, 5> a{};
        E b[3]{};
        std::size_t i = 0;
        for (auto & x : a) element(x, i++, salt);
        for (auto & x : b) element(x, i++, salt);
        std::span<E, 5> view{a};
        std::span<E> dynamic{a};
        Enc e;
        e.cfg = C::cfg;
        auto many = [&](auto & c) { for (auto & x : c) M<E>::enc(x, e); };
        auto kind = ctx.src.below(6);
        switch (kind) {
        case 0: case 1: case 2: many(a); many(b); break;
        case 3: case 4: many(a); break;
        default: e.size(5, policy<S>::value); many(a);
        }
        auto transfer = [&](auto && archive, auto & a, auto & b, auto & view, auto & dynamic) -> std::errc {
            switch (kind) {
            case 0: return archive(a, b);
            case 1: return archive(zpp::bits::sized<S>(a), zpp::bits::sized<S>(b));
            case 2: return archive(zpp::bits::unsized(a), zpp::bits::unsized(b));
            case 3: return archive(zpp::bits::sized<S>(view));
            case 4: return archive(view);
            default: return archive(zpp::bits::sized<S>(dynamic));
            }
        };
        typename C::container data;
        auto r = transfer(C::out(data), a, b, view, dynamic);
        REQUIRE(r == OK && data.size() == e.out.size() && equal_bytes(data.data(), e.out.data(), data.size()), "fixed extents, kind %zu: %s: %s, expected %s", std::size_t(kind), code_name(r), hex(data.data(), data.size()).c_str(), hex(e.out).c_str());
        std::array<E, 5> a2{};
        E b2[3]{};
        std::span<E, 5> view2{a2};
        std::span<E> dynamic2{a2};
        auto in = C::in(data);
        r = transfer(in, a2, b2, view2, dynamic2);
        bool equal = M<decltype(a)>::eq(a, a2) && (kind > 2 || M<E[3]>::eq(b, b2));
        REQUIRE(r == OK && in.position() == data.size() && equal, "fixed extents, kind %zu, are read differently: %s", std::size_t(kind), code_name(r));
        ctx.nontrivial();
        ctx.label("fixed extents");
        if (ctx.sampling()) ctx.sample("fixed %zu: %s", std::size_t(kind), hex(e.out).c_str());
    }
};

// An alias is its base with that size type.
template <typename A, typename B, typename S>
struct alias
{
    static void run(eng::Ctx & ctx, const void * name)
    {
        using C = cfgs::svarint;
        using T = std::remove_const_t<typename B::value_type>;
        auto n = ctx.src.flip(1, 3) ? 250 + ctx.src.below(20) : ctx.src.flip(1, 3) ? 65530 + ctx.src.below(12) : ctx.src.small(8);
        auto salt = ctx.src.below(1 << 20);
        std::vector<T> v(n);
        for (std::size_t i = 0; i < n; ++i) element(v[i], i, salt);
        Enc e;
        e.cfg = C::cfg;
        auto k = e.size(n, policy<S>::value);
        for (std::size_t i = 0; i < k; ++i) M<T>::enc(v[i], e);
        e.byte(0x5a);
        auto make = [](auto & v) {
            if constexpr (requires(B b) { b.resize(1); }) return A(v.begin(), v.end());
            else return A{v.data(), v.size()};
        };
        static_assert(std::is_base_of_v<B, A>);
        A a = make(v);
        typename C::container data;
        std::errc r = C::out(data)(a, std::uint8_t{0x5a});
        REQUIRE(r == OK && data.size() == e.out.size() && equal_bytes(data.data(), e.out.data(), data.size()), "%s of %zu elements: %s: %s, expected %s", static_cast<const char *>(name), n, code_name(r), hex(data.data(), data.size()).c_str(), hex(e.out).c_str());
        std::vector<T> storage(k + 2);
        std::uint8_t last{};
        using V = typename B::value_type;
        if constexpr (requires(B b) { b.resize(1); }) {
            A back(std::is_void_v<S> ? k : ctx.src.small(4), T{});
            std::errc q = C::in(data)(back, last);
            REQUIRE(q == OK && last == 0x5a && back.size() == k && std::equal(back.begin(), back.end(), v.begin()), "%s of %zu elements is read as %zu: %s", static_cast<const char *>(name), n, back.size(), code_name(q));
        } else if constexpr (requires(B b) { { b[0] } -> std::same_as<V &>; } && !std::is_const_v<std::remove_reference_t<decltype(std::declval<B &>()[0])>>) {
            A back{storage.data(), std::is_void_v<S> ? k : k + 2};
            std::errc q = C::in(data)(back, last);
            REQUIRE(q == OK && last == 0x5a && back.size() == k && back.data() == storage.data() && std::equal(back.begin(), back.end(), v.begin()), "%s of %zu elements is read as %zu: %s", static_cast<const char *>(name), n, back.size(), code_name(q));
        } else if constexpr (std::is_same_v<T, char>) {
            zpp::bits::in in{std::span<const char>{reinterpret_cast<const char *>(data.data()), data.size()}};
            A back;
            std::errc q = in(back);
            auto want = std::is_void_v<S> ? k + 1 : k;
            REQUIRE(q == OK && back.size() == want && equal_bytes(back.data(), v.data(), k), "%s of %zu elements is viewed as %zu: %s", static_cast<const char *>(name), n, back.size(), code_name(q));
        }
        if (n) ctx.nontrivial();
        ctx.label("alias");
        if (ctx.sampling()) ctx.sample("%s of %zu: %s", static_cast<const char *>(name), n, hex(e.out, 24).c_str());
    }
};
} // namespace c25

#define C25(NAME, C, S, ...) static eng::Registrar c25_##NAME{"C25(" #NAME ":" #C "," #S ")", &c25::test<__VA_ARGS__, cfgs::C, S>::run};
#define C25_FIXED(NAME, C, S, ...) static eng::Registrar c25_##NAME{"C25_FIXED(" #NAME ":" #C "," #S ")", &c25::fixed<__VA_ARGS__, cfgs::C, S>::run};
#define C25_ALIAS(NAME, A, S, ...) static eng::Registrar c25_##NAME{"alias_" #NAME, &c25::alias<A, __VA_ARGS__, S>::run, #A};
