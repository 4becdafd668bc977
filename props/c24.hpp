// C24: byte copies are unobservable: whatever the carrier, the bytes are those of the members one by one.
#pragma once
#include "common.hpp"
#include "configs.hpp"
#include <span>

namespace p
{
struct nil {};
struct nil2 { bool operator==(const nil2 &) const = default; };
struct nilc { using serialize = zpp::bits::members<0>; };
struct wrapnil { nil n; };
enum class plainenum : std::uint16_t { a, b = 400 };

// Custom serialization of types that could be copied.
template <typename A> concept reader = std::remove_cvref_t<A>::kind() == zpp::bits::kind::in;
template <typename A> concept writer = std::remove_cvref_t<A>::kind() == zpp::bits::kind::out;
enum class tone : std::uint16_t {};
constexpr auto serialize(reader auto & archive, tone & t)
{
    std::uint8_t v{};
    auto r = archive(v);
    t = tone(v * 3);
    return r;
}
constexpr auto serialize(writer auto & archive, const tone & t) { return archive(std::uint8_t(std::uint16_t(t) / 3)); }
enum class hue : unsigned char {};
constexpr auto serialize(reader auto & archive, hue & t)
{
    std::uint8_t v{};
    auto r = archive(v);
    t = hue(v ^ 0x55);
    return r;
}
constexpr auto serialize(writer auto & archive, const hue & t) { return archive(std::uint8_t(std::uint8_t(t) ^ 0x55)); }
struct dial // the same for a class
{
    std::uint32_t v{};
    constexpr static auto serialize(writer auto & archive, auto & self) { return archive(zpp::bits::varint<std::uint32_t>(self.v)); }
    constexpr static auto serialize(reader auto & archive, auto & self)
    {
        zpp::bits::varint<std::uint32_t> v;
        auto r = archive(v);
        self.v = v;
        return r;
    }
};
struct knob // as wide as its encoding
{
    std::uint8_t v{};
};
constexpr auto serialize(reader auto & archive, knob & k)
{
    std::uint8_t v{};
    auto r = archive(v);
    k.v = std::uint8_t(~v);
    return r;
}
constexpr auto serialize(writer auto & archive, const knob & k) { return archive(std::uint8_t(~k.v)); }
} // namespace p

template <> struct model::M<p::tone> : model::Base<p::tone>
{
    static constexpr bool hostile = true;
    static constexpr std::size_t min_bytes = 1;
    static void gen(G & g, p::tone & t) { t = p::tone(g.src.below(256) * 3); }
    static void enc(const p::tone & t, Enc & e) { e.byte(std::uint16_t(t) / 3); }
    static bool eq(const p::tone & a, const p::tone & b) { return a == b; }
};
template <> struct model::M<p::hue> : model::Base<p::hue>
{
    static constexpr bool hostile = true;
    static constexpr std::size_t min_bytes = 1;
    static void gen(G & g, p::hue & t) { t = p::hue(g.src.below(256)); }
    static void enc(const p::hue & t, Enc & e) { e.byte(std::uint8_t(t) ^ 0x55); }
    static bool eq(const p::hue & a, const p::hue & b) { return a == b; }
};
template <> struct model::M<p::dial> : model::Base<p::dial>
{
    static constexpr std::size_t min_bytes = 1;
    static void gen(G & g, p::dial & t) { t.v = std::uint32_t(g.src.interesting(32)); }
    static void enc(const p::dial & t, Enc & e) { e.varint(t.v); }
    static bool eq(const p::dial & a, const p::dial & b) { return a.v == b.v; }
};
template <> struct model::M<p::knob> : model::Base<p::knob>
{
    static constexpr std::size_t min_bytes = 1;
    static void gen(G & g, p::knob & t) { t.v = std::uint8_t(g.src.interesting(8)); }
    static void enc(const p::knob & t, Enc & e) { e.byte(std::uint8_t(~t.v)); }
    static bool eq(const p::knob & a, const p::knob & b) { return a.v == b.v; }
};
template <typename T> struct NilModel : model::StructModel<T, model::M<T>>
{
    static auto tie(auto &) { return std::tuple<>{}; }
    static constexpr bool hostile = true, ordered = true;
    static constexpr std::size_t min_bytes = 0;
};
template <> struct model::M<p::nil> : NilModel<p::nil> {};
template <> struct model::M<p::nil2> : NilModel<p::nil2> {};
template <> struct model::M<p::nilc> : NilModel<p::nilc> {};
template <> struct model::M<p::wrapnil> : NilModel<p::wrapnil> {};

namespace c24
{
using model::Enc;
using model::G;
using model::M;

template <typename C>
void compare(auto & data, const Enc & e, std::errc r, const char * type, const char * how)
{
    REQUIRE(r == OK, "%s %s: writing %s: %s", C::name, type, how, code_name(r));
    REQUIRE(data.size() == e.out.size() && equal_bytes(data.data(), e.out.data(), data.size()), "%s %s: %s: %s, member by member %s", C::name, type, how, hex(data.data(), data.size()).c_str(), hex(e.out).c_str());
}

template <typename T, typename C>
struct test
{
    static void run(eng::Ctx & ctx, const void * arg)
    {
        auto type = static_cast<const char *>(arg);
        G g{ctx.src};
        g.limit(C::cfg.size == model::SP_1 ? 255 : 2000);
        g.budget = 60;
        T v = M<T>::fresh(), w = M<T>::fresh();
        M<T>::gen(g, v);
        auto mark = std::uint16_t(ctx.src.bits());
        Enc e;
        e.cfg = C::cfg;
        M<T>::enc(v, e);
        e.value(mark);
        typename C::container data;
        const T & c = v;
        auto r = ctx.src.flip() ? C::out(data)(v, mark) : C::out(data)(c, mark);
        compare<C>(data, e, r, type, "written");
        if (ctx.src.flip(1, 4)) {
            auto room = e.out.size() - ctx.src.below(2);
            Exact mem(Bytes(room, 0xaa));
            std::span<typename C::byte> s{reinterpret_cast<typename C::byte *>(mem.p), mem.n};
            auto q = C::out(s)(v, mark);
            if (room == e.out.size()) REQUIRE(q == OK && equal_bytes(mem.p, e.out.data(), room), "%s %s: writing into %zu bytes: %s %s", C::name, type, room, code_name(q), hex(mem.p, room).c_str());
            else REQUIRE(q == std::errc::result_out_of_range, "%s %s: writing into %zu of %zu bytes: %s", C::name, type, room, e.out.size(), code_name(q));
        }
        if (ctx.src.flip()) M<T>::gen(g, w);
        {
            Exact mem(e.out);
            std::span<const typename C::byte> s{reinterpret_cast<const typename C::byte *>(mem.p), mem.n};
            auto in = C::in(s);
            std::uint16_t m{};
            auto q = in(w, m);
            REQUIRE(q == OK && m == mark, "%s %s: reading %s: %s", C::name, type, hex(e.out).c_str(), code_name(q));
            bool same = M<T>::eq(v, w);
            REQUIRE(same, "%s %s: %s read as something else", C::name, type, hex(e.out).c_str());
            REQUIRE(in.position() == e.out.size(), "%s %s: %zu of %zu bytes read", C::name, type, in.position(), e.out.size());
        }
        if (e.out.size() > 3) ctx.nontrivial();
        using X = std::remove_cvref_t<decltype(std::declval<const T &>())>;
        if constexpr (requires { typename X::value_type; }) {
            using V = typename X::value_type;
            if constexpr (!zpp::bits::concepts::varint<X> && requires { zpp::bits::access::byte_serializable<V>(); })
                ctx.label(zpp::bits::access::byte_serializable<V>() ? "elements eligible for a byte copy" : "elements not eligible");
        } else if constexpr (requires { zpp::bits::access::byte_serializable<X>(); }) {
            ctx.label(zpp::bits::access::byte_serializable<X>() ? "eligible for a byte copy" : "not eligible");
        }
        if (ctx.sampling()) ctx.sample("%s %s: %s", C::name, type, hex(e.out, 32).c_str());
    }
};

// Arrays and spans, which have no model of their own.
template <typename T, typename C>
struct arrays
{
    static void run(eng::Ctx & ctx, const void * arg)
    {
        auto type = static_cast<const char *>(arg);
        G g{ctx.src};
        T a[3] = {M<T>::fresh(), M<T>::fresh(), M<T>::fresh()};
        for (auto & x : a) M<T>::gen(g, x);
        auto n = ctx.src.below(4);
        auto kind = ctx.src.below(4);
        std::uint8_t mark = 0x77;
        Enc e;
        e.cfg = C::cfg;
        auto some = [&](std::size_t n) { for (std::size_t i = 0; i < n; ++i) M<T>::enc(a[i], e); };
        switch (kind) {
        case 0: some(3); break;
        case 1: e.size(n); some(n); break;
        case 2: some(3); break;
        default: e.size(n, model::SP_2); some(n);
        }
        e.byte(mark);
        auto transfer = [&](auto && archive, auto & a, std::size_t room) -> std::errc {
            using E = std::remove_reference_t<decltype(a[0])>;
            std::span<E> s{a, room};
            switch (kind) {
            case 0: return archive(a, mark);
            case 1: { auto r = archive(s, mark); if (r == OK && s.size() != n) return std::errc::bad_message; return r; }
            case 2: { std::span<E, 3> f{a}; return archive(f, mark); }
            default: { auto r = archive(zpp::bits::sized<std::uint16_t>(s), mark); if (r == OK && s.size() != n) return std::errc::bad_message; return r; }
            }
        };
        static const char * const names[] = {"C array", "span", "fixed span", "sized span"};
        typename C::container data;
        std::errc r;
        if (ctx.src.flip()) r = transfer(C::out(data), a, n);
        else r = transfer(C::out(data), std::as_const(a), n);
        compare<C>(data, e, r, type, names[kind]);
        T a2[3] = {M<T>::fresh(), M<T>::fresh(), M<T>::fresh()};
        for (auto & x : a2) M<T>::gen(g, x);
        T before = a2[2];
        Exact mem(e.out);
        std::span<const typename C::byte> s{reinterpret_cast<const typename C::byte *>(mem.p), mem.n};
        auto in = C::in(s);
        mark = 0;
        auto q = transfer(in, a2, 3);
        REQUIRE(q == OK && mark == 0x77 && in.position() == e.out.size(), "%s %s: reading %s: %s at %zu of %zu", C::name, type, names[kind], code_name(q), in.position(), e.out.size());
        bool same = true;
        for (std::size_t i = 0; i < (kind == 0 || kind == 2 ? 3 : n); ++i) same = same && M<T>::eq(a[i], a2[i]);
        if ((kind == 1 || kind == 3) && n < 3) same = same && M<T>::eq(before, a2[2]);
        REQUIRE(same, "%s %s: %s of %s read as something else", C::name, type, names[kind], hex(e.out).c_str());
        if (e.out.size() > 3) ctx.nontrivial();
        ctx.label(names[kind]);
        if (ctx.sampling()) ctx.sample("%s %s %s: %s", C::name, names[kind], type, hex(e.out, 32).c_str());
    }
};

// bytes() and as_bytes(): exactly the object bytes of the given number of items.
template <typename T, typename C>
struct rawbytes
{
    static void run(eng::Ctx & ctx, const void * arg)
    {
        auto type = static_cast<const char *>(arg);
        constexpr std::size_t K = 6;
        G g{ctx.src};
        std::vector<T> v;
        for (std::size_t i = 0; i < K; ++i) { T x = M<T>::fresh(); M<T>::gen(g, x); v.push_back(x); }
        auto kind = ctx.src.below(11);
        std::size_t n = ctx.src.below(K + 1);
        T a[4] = {v[0], v[1], v[2], v[3]};
        std::array<T, 5> f{v[0], v[1], v[2], v[3], v[4]};
        std::array<T, 0> none{};
        std::size_t count;
        switch (kind) {
        case 0: case 5: count = K; break;
        case 1: case 4: case 6: count = n; break;
        case 2: count = 4; break;
        case 3: count = 5; break;
        case 9: count = 0; break;
        case 10: n = n > 5 ? 5 : n; count = n; break;
        default: count = 1;
        }
        static const char * const names[] = {"vector", "vector and count", "C array", "array", "span", "const vector", "span and count", "as_bytes", "as_bytes of const", "empty array", "array and count"};
        std::uint8_t first = 0x11, last = 0x22;
        // the source the bytes are taken from
        const void * from = v.data();
        if (kind == 2) from = a;
        if (kind == 3 || kind == 10) from = f.data();
        if (kind == 7 || kind == 8) from = &a[1];
        auto put = [&](auto && archive) -> std::errc {
            using zpp::bits::bytes, zpp::bits::as_bytes;
            std::span<T> s{v};
            switch (kind) {
            case 0: return archive(first, bytes(v), last);
            case 1: return archive(first, bytes(v, n), last);
            case 2: return archive(first, bytes(a), last);
            case 3: return archive(first, bytes(f), last);
            case 4: return archive(first, bytes(s.first(n)), last);
            case 5: return archive(first, bytes(std::as_const(v)), last);
            case 6: return archive(first, bytes(s, n), last);
            case 7: return archive(first, as_bytes(a[1]), last);
            case 8: return archive(first, as_bytes(std::as_const(a[1])), last);
            case 9: return archive(first, bytes(none), last);
            default: return archive(first, bytes(f, n), last);
            }
        };
        Bytes want(2 + count * sizeof(T));
        want[0] = first;
        std::memcpy(&want[1], from, count * sizeof(T));
        want.back() = last;
        typename C::container data;
        Enc e;
        e.out = want;
        compare<C>(data, e, put(C::out(data)), type, names[kind]);
        auto room = want.size() - ctx.src.below(count * sizeof(T) + 2);
        {
            Exact mem(Bytes(room, 0xaa));
            std::span<typename C::byte> s{reinterpret_cast<typename C::byte *>(mem.p), mem.n};
            auto out = C::out(s);
            auto q = put(out);
            if (room == want.size()) REQUIRE(q == OK && equal_bytes(mem.p, want.data(), room), "%s %s: %s into %zu bytes: %s", C::name, type, names[kind], room, code_name(q));
            else REQUIRE(q == std::errc::result_out_of_range && out.position() <= room, "%s %s: %s into %zu of %zu bytes: %s at %zu", C::name, type, names[kind], room, want.size(), code_name(q), out.position());
        }
        // read over other values
        std::vector<T> old;
        for (std::size_t i = 0; i < K; ++i) { T x = M<T>::fresh(); M<T>::gen(g, x); old.push_back(x); }
        std::vector<T> tv = old;
        T ta[4] = {old[0], old[1], old[2], old[3]};
        std::array<T, 5> tf{old[0], old[1], old[2], old[3], old[4]};
        // memcpy keeps the padding bytes too
        std::memcpy(static_cast<void *>(tv.data()), static_cast<const void *>(old.data()), K * sizeof(T));
        std::memcpy(static_cast<void *>(ta), static_cast<const void *>(old.data()), sizeof ta);
        std::memcpy(static_cast<void *>(tf.data()), static_cast<const void *>(old.data()), sizeof tf);
        auto get = [&](auto && archive) -> std::errc {
            using zpp::bits::bytes, zpp::bits::as_bytes;
            std::span<T> s{tv};
            switch (kind) {
            case 0: case 5: return archive(first, bytes(tv), last);
            case 1: return archive(first, bytes(tv, n), last);
            case 2: return archive(first, bytes(ta), last);
            case 3: return archive(first, bytes(tf), last);
            case 4: return archive(first, bytes(s.first(n)), last);
            case 6: return archive(first, bytes(s, n), last);
            case 7: case 8: return archive(first, as_bytes(ta[1]), last);
            case 9: return archive(first, bytes(none), last);
            default: return archive(first, bytes(tf, n), last);
            }
        };
        first = last = 0;
        auto target = [&]() -> const unsigned char * {
            if (kind == 2) return reinterpret_cast<const unsigned char *>(ta);
            if (kind == 7 || kind == 8) return reinterpret_cast<const unsigned char *>(&ta[1]);
            if (kind == 3 || kind == 10) return reinterpret_cast<const unsigned char *>(tf.data());
            return reinterpret_cast<const unsigned char *>(tv.data());
        }();
        std::size_t capacity = kind == 2 ? 4 : kind == 7 || kind == 8 ? 3 : kind == 3 || kind == 10 ? 5 : K;
        auto prior = Bytes(target, target + capacity * sizeof(T));
        bool cut = room != want.size() && ctx.src.flip();
        Bytes msg(want.begin(), want.begin() + std::ptrdiff_t(cut ? room : want.size()));
        Exact mem(msg);
        std::span<const typename C::byte> s{reinterpret_cast<const typename C::byte *>(mem.p), mem.n};
        auto in = C::in(s);
        auto q = get(in);
        if (cut) {
            REQUIRE(q == std::errc::result_out_of_range && in.position() <= msg.size(), "%s %s: %s from %zu of %zu bytes: %s at %zu", C::name, type, names[kind], msg.size(), want.size(), code_name(q), in.position());
            ctx.label("cut");
        } else {
            REQUIRE(q == OK && first == 0x11 && last == 0x22 && in.position() == want.size(), "%s %s: reading %s: %s at %zu of %zu", C::name, type, names[kind], code_name(q), in.position(), want.size());
            REQUIRE(equal_bytes(target, &want[1], count * sizeof(T)), "%s %s: %s read %s, sent %s", C::name, type, names[kind], hex(target, count * sizeof(T)).c_str(), hex(&want[1], count * sizeof(T)).c_str());
        }
        REQUIRE(equal_bytes(target + count * sizeof(T), prior.data() + count * sizeof(T), (capacity - count) * sizeof(T)), "%s %s: %s: more than %zu items overwritten", C::name, type, names[kind], count);
        if (count) ctx.nontrivial();
        ctx.label(names[kind]);
        if (ctx.sampling()) ctx.sample("%s %s of %s, %zu items: %s", C::name, names[kind], type, count, hex(want, 32).c_str());
    }
};

// Trivially copyable objects that refer to other data.
struct named { std::uint32_t id{}; std::string_view name; };
struct scores { std::span<const std::uint16_t> all; std::uint64_t sum{}; };
struct boxes { std::array<named, 2> a; };
struct copied { std::uint32_t id{}; std::string name; };
struct listed { std::vector<std::uint16_t> all; std::uint64_t sum{}; };

template <typename C>
struct views
{
    static void run(eng::Ctx & ctx, const void *)
    {
        static const char text[] = "the quick brown fox jumps over the lazy dog";
        static const std::uint16_t numbers[] = {1, 2, 258, 65535, 4660, 7};
        auto some = [&] { named n; n.id = std::uint32_t(ctx.src.bits()); auto k = ctx.src.below(20); n.name = {text + ctx.src.below(20), k}; return n; };
        Enc e;
        e.cfg = C::cfg;
        auto enc = [&](const named & n) { e.value(n.id); auto k = e.size(n.name.size()); e.raw(n.name.data(), k); };
        typename C::container data;
        std::errc r;
        auto kind = ctx.src.below(5);
        auto n = ctx.src.below(4);
        std::vector<named> list;
        for (unsigned i = 0; i < n + 2; ++i) list.push_back(some());
        std::vector<scores> sc;
        switch (kind) {
        case 0: r = C::out(data)(list[0]); enc(list[0]); break;
        case 1: r = C::out(data)(list); e.size(list.size()); for (auto & x : list) enc(x); break;
        case 2: { std::vector<boxes> b{{{list[0], list[1]}}, {{list[1], list[0]}}}; r = C::out(data)(b); e.size(2); enc(list[0]), enc(list[1]), enc(list[1]), enc(list[0]); break; }
        case 3: {
            named a[2] = {list[0], list[1]};
            r = C::out(data)(a);
            enc(a[0]), enc(a[1]);
            break;
        }
        default:
            for (unsigned i = 0; i < n; ++i) { auto k = ctx.src.below(7); sc.push_back({std::span<const std::uint16_t>(numbers, k), ctx.src.bits()}); }
            r = C::out(data)(sc);
            e.size(n);
            for (auto & x : sc) { e.size(x.all.size()); for (auto y : x.all) e.value(y); e.value(x.sum); }
        }
        compare<C>(data, e, r, "views", "views of other data");
        if constexpr (std::is_same_v<typename C::byte, char>) {
            Exact mem(e.out);
            std::span<const char> s{reinterpret_cast<const char *>(mem.p), mem.n};
            auto in = C::in(s);
            auto within = [&](std::string_view v) { return v.empty() || (v.data() >= s.data() && v.data() + v.size() <= s.data() + s.size()); };
            if (kind == 0) {
                named x;
                auto q = in(x);
                REQUIRE(q == OK && x.id == list[0].id && x.name == list[0].name && within(x.name), "view read: %s", code_name(q));
            } else if (kind == 1) {
                std::vector<named> got;
                auto q = in(got);
                REQUIRE(q == OK && got.size() == list.size(), "%zu views read: %s", got.size(), code_name(q));
                for (std::size_t i = 0; i < got.size(); ++i) REQUIRE(got[i].id == list[i].id && got[i].name == list[i].name && within(got[i].name), "view %zu differs", i);
            } else if (kind == 4) {
                std::vector<listed> got;
                auto q = in(got);
                REQUIRE(q == OK && got.size() == sc.size(), "%zu of %zu read: %s", got.size(), sc.size(), code_name(q));
                for (std::size_t i = 0; i < got.size(); ++i) REQUIRE(got[i].sum == sc[i].sum && std::ranges::equal(got[i].all, sc[i].all), "item %zu differs", i);
            }
        }
        ctx.nontrivial();
        ctx.label("views of other data");
    }
};

// The documented shortcut for a class with private members: archive(as_bytes(self)).
struct Requirements { std::uint16_t a{}, b{}; std::uint32_t c{}; };
class whole
{
public:
    whole() = default;
    constexpr static auto serialize(auto & archive, auto & self) { return archive(zpp::bits::as_bytes(self)); }
    std::uint16_t a{}, b{};
    std::uint32_t c{};
};
template <typename C>
struct doc
{
    static void run(eng::Ctx & ctx, const void *)
    {
        std::vector<whole> v(ctx.src.small(5));
        Enc e;
        e.cfg = C::cfg;
        auto wrapped = ctx.src.flip();
        if (wrapped) e.size(v.size());
        for (auto & x : v) { x.a = std::uint16_t(ctx.src.bits()); x.b = std::uint16_t(ctx.src.bits()); x.c = std::uint32_t(ctx.src.bits()); e.raw(&x, sizeof x); }
        typename C::container data;
        auto out = C::out(data);
        std::errc r{};
        if (wrapped) r = out(v);
        else for (auto & x : v) if (r == OK) r = out(x);
        compare<C>(data, e, r, "whole", "as_bytes(self)");
        Exact mem(e.out);
        std::span<const typename C::byte> s{reinterpret_cast<const typename C::byte *>(mem.p), mem.n};
        auto in = C::in(s);
        std::vector<whole> w(wrapped ? ctx.src.small(3) : v.size());
        std::errc q{};
        if (wrapped) q = in(w);
        else for (auto & x : w) if (q == OK) q = in(x);
        REQUIRE(q == OK && w.size() == v.size(), "as_bytes(self) read: %s", code_name(q));
        for (std::size_t i = 0; i < v.size(); ++i) REQUIRE(w[i].a == v[i].a && w[i].b == v[i].b && w[i].c == v[i].c, "as_bytes(self) %zu differs", i);
        if (v.size()) ctx.nontrivial();
        ctx.label("as_bytes(self)");
    }
};
} // namespace c24

#define C24(N, CFG, ...) static eng::Registrar N{#N, &c24::test<__VA_ARGS__, cfgs::CFG>::run, #__VA_ARGS__};
#define C24_ARRAYS(N, CFG, ...) static eng::Registrar N{#N, &c24::arrays<__VA_ARGS__, cfgs::CFG>::run, #__VA_ARGS__};
#define C24_BYTES(N, CFG, ...) static eng::Registrar N{#N, &c24::rawbytes<__VA_ARGS__, cfgs::CFG>::run, #__VA_ARGS__};
#define C24_VIEWS(N, CFG) static eng::Registrar N{#N, &c24::views<cfgs::CFG>::run, nullptr, 3};
#define C24_DOC(N, CFG) static eng::Registrar N{#N, &c24::doc<cfgs::CFG>::run, nullptr, 2};
