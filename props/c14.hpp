// C14: byte views alias the input, spans are filled in place, both within their bounds.
#pragma once
#include "common.hpp"
#include "configs.hpp"
#include <span>

namespace c14
{
using model::Enc;
using zpp::bits::sized_t;
using zpp::bits::unsized_t;

// How a view's size is written: by the archive, by a type, or not at all.
struct by_archive { template <typename V> using t = V; static constexpr int policy = -1; static constexpr std::size_t max = 300000; };
template <typename S> struct by { template <typename V> using t = sized_t<V, S>; static constexpr int policy = model::size_policy<S>::value; static constexpr std::size_t max = model::size_policy<S>::max; };
struct native { template <typename V> using t = sized_t<V, std::size_t>; static constexpr int policy = model::SP_8; static constexpr std::size_t max = 300000; };

inline std::size_t policy_max(int p) { return p == model::SP_1 ? 255 : p == model::SP_2 ? 65535 : 300000; }
template <typename C> void put_size(Enc & e, std::uint64_t n, int policy) { e.size(n, policy < 0 ? C::cfg.size : policy); }

struct View { std::size_t at, n; };

inline std::size_t length(eng::Ctx & ctx, std::size_t max)
{
    std::size_t n = ctx.src.length(max);
    return n > max ? max : n;
}

// ---------------------------------------------------------------- const byte views
// One item of the stream: a view alone, in a struct, tuple, optional, variant or vector, or through sized()/unsized().
template <typename V>
struct holder { std::uint16_t a{}; V v; std::uint8_t b{}; };

template <typename V, typename C, typename W>
struct const_views
{
    using S = typename W::template t<V>;
    using byte = typename C::byte;

    struct Item { int kind; std::vector<View> views; std::size_t end; };

    static void put(eng::Ctx & ctx, Enc & e, Item & it, std::size_t max)
    {
        auto n = length(ctx, std::min(max, policy_max(W::policy < 0 ? C::cfg.size : W::policy)));
        put_size<C>(e, n, W::policy);
        it.views.push_back({e.out.size(), n});
        auto b = random_bytes(ctx.src, n);
        e.raw(b.data(), n);
    }
    static void check(const auto & view, const View & w, const unsigned char * base, const char * what)
    {
        REQUIRE(view.size() == w.n, "%s: view of %zu bytes, encoded %zu", what, view.size(), w.n);
        REQUIRE(!w.n || static_cast<const void *>(view.data()) == base + w.at, "%s: view at %td of the data, expected %zu", what,
            reinterpret_cast<const unsigned char *>(view.data()) - base, w.at);
        REQUIRE(equal_bytes(view.data(), base + w.at, w.n), "%s: other contents", what);
    }
    static constexpr const char * kinds[] = {"plain", "struct", "tuple", "optional", "variant", "vector", "reused", "array", "sized()"};

    static void stream(eng::Ctx & ctx, const void *)
    {
        Enc e;
        e.cfg = C::cfg;
        e.out = random_bytes(ctx.src, ctx.src.small(5));
        std::size_t start = e.out.size();
        std::vector<Item> items(1 + ctx.src.small(4));
        std::string trace;
        std::size_t total = 0;
        for (auto & it : items) {
            it.kind = int(ctx.src.below(9));
            if (it.kind == 8 && W::policy < 0) it.kind = 0;
            trace += std::string(" ") + kinds[it.kind];
            std::size_t max = ctx.src.flip(1, 8) ? 70000 : 300;
            switch (it.kind) {
            case 1: e.value(std::uint16_t(0x1234)); put(ctx, e, it, max); e.byte(0x77); break;
            case 2: put(ctx, e, it, max); e.value(std::uint32_t(7)); put(ctx, e, it, max); break;
            case 3: { bool has = ctx.src.flip(3, 4); e.byte(has); if (has) put(ctx, e, it, max); break; }
            case 4: e.byte(1); put(ctx, e, it, max); break;
            case 5: { auto n = ctx.src.small(4); e.size(n); while (n--) put(ctx, e, it, 300); break; }
            case 7: put(ctx, e, it, max); put(ctx, e, it, max); break;
            default: put(ctx, e, it, max);
            }
            it.end = e.out.size();
            for (auto & v : it.views) total += v.n;
        }
        auto tail = random_bytes(ctx.src, ctx.src.small(4));
        e.raw(tail.data(), tail.size());
        Exact mem(e.out);
        std::span<const byte> s{reinterpret_cast<const byte *>(mem.p), mem.n};
        auto in = C::in(s);
        in.reset(start);
        std::vector<std::pair<S, View>> kept;
        kept.reserve(64);
        auto keep = [&](const S & v, const View & w) { if (kept.size() < 64) kept.emplace_back(v, w); };
        S reused{};
        for (auto & it : items) {
            std::errc r{};
            std::size_t spent = 0;
            auto read = [&](auto && x) { auto t = eng::alloc().total_bytes; r = in(x); spent = eng::alloc().total_bytes - t; };
            switch (it.kind) {
            case 1: { holder<S> h; read(h); if (r == OK) { REQUIRE(h.a == 0x1234 && h.b == 0x77, "neighbours differ"); keep(h.v, it.views[0]); } break; }
            case 2: { std::tuple<S, std::uint32_t, S> t; read(t); if (r == OK) { REQUIRE(std::get<1>(t) == 7, "neighbour differs"); keep(std::get<0>(t), it.views[0]); keep(std::get<2>(t), it.views[1]); } break; }
            case 3: { std::optional<S> o; if (ctx.src.flip()) o.emplace(); read(o); if (r == OK) { REQUIRE(o.has_value() == !it.views.empty(), "optional differs"); if (o) keep(*o, it.views[0]); } break; }
            case 4: { std::variant<std::uint32_t, S> v; read(v); if (r == OK) { REQUIRE(v.index() == 1, "variant differs"); keep(std::get<1>(v), it.views[0]); } break; }
            case 5: {
                std::vector<S> v(ctx.src.small(3));
                read(v);
                spent = 0;
                if (r == OK) {
                    REQUIRE(v.size() == it.views.size(), "%zu views, encoded %zu", v.size(), it.views.size());
                    for (std::size_t i = 0; i < v.size(); ++i) keep(v[i], it.views[i]);
                }
                break;
            }
            case 6: read(reused); if (r == OK) keep(reused, it.views[0]); break;
            case 7: { std::array<S, 2> a; read(a); if (r == OK) { keep(a[0], it.views[0]); keep(a[1], it.views[1]); } break; }
            case 8: {
                if constexpr (W::policy >= 0) {
                    V v{};
                    if constexpr (W::policy == model::SP_1) read(zpp::bits::sized<std::uint8_t>(v));
                    else if constexpr (W::policy == model::SP_2) read(zpp::bits::sized<std::uint16_t>(v));
                    else if constexpr (W::policy == model::SP_4) read(zpp::bits::sized<std::uint32_t>(v));
                    else if constexpr (W::policy == model::SP_8) read(zpp::bits::sized<std::uint64_t>(v));
                    else read(zpp::bits::sized<zpp::bits::vsize_t>(v));
                    if (r == OK) { S t{}; static_cast<V &>(t) = v; keep(t, it.views[0]); }
                }
                break;
            }
            default: { S v{}; read(v); if (r == OK) keep(v, it.views[0]); }
            }
            REQUIRE(r == OK, "%s reading [%s]", code_name(r), trace.c_str());
            REQUIRE(in.position() == it.end, "position %zu, expected %zu [%s]", in.position(), it.end, trace.c_str());
            REQUIRE(!spent, "memory allocated for a view [%s]", trace.c_str());
        }
        // all still valid at the end
        for (auto & [v, w] : kept) check(v, w, mem.p, trace.c_str());
        REQUIRE(equal_bytes(mem.p, e.out.data(), mem.n), "the input changed");
        if (total > 1) ctx.nontrivial();
        if (ctx.sampling()) ctx.sample("%s/%d: %zu bytes:%s", C::name, W::policy, mem.n, trace.c_str());
    }

    // A claimed size around what is left.
    static void claim(eng::Ctx & ctx, const void *)
    {
        Enc e;
        e.cfg = C::cfg;
        e.out = random_bytes(ctx.src, ctx.src.small(5));
        auto start = e.out.size();
        auto policy = W::policy < 0 ? C::cfg.size : W::policy;
        std::size_t left = length(ctx, 600);
        std::uint64_t claimed;
        switch (ctx.src.below(4)) {
        case 0: claimed = left + ctx.src.below(4); break;
        case 1: claimed = left - std::min<std::uint64_t>(left, ctx.src.below(4)); break;
        case 2: claimed = ctx.src.interesting(64); break;
        default: claimed = ~std::uint64_t{0} - ctx.src.below(2 * left + 40);
        }
        if (policy == model::SP_1) claimed &= 0xff;
        if (policy == model::SP_2) claimed &= 0xffff;
        if (policy == model::SP_4) claimed &= 0xffffffff;
        put_size<C>(e, claimed, W::policy);
        auto at = e.out.size();
        auto rest = random_bytes(ctx.src, left);
        e.raw(rest.data(), left);
        Exact mem(e.out);
        std::span<const byte> s{reinterpret_cast<const byte *>(mem.p), mem.n};
        auto in = C::in(s);
        in.reset(start);
        S v{};
        std::errc r = in(v);
        if (claimed > left) {
            REQUIRE(r == std::errc::result_out_of_range, "%llu bytes claimed with %zu left: %s", (unsigned long long)claimed, left, code_name(r));
            REQUIRE(v.size() == 0 || (static_cast<const void *>(v.data()) >= mem.p && v.size() <= mem.n), "view outside the data");
            REQUIRE(in.position() <= mem.n, "position %zu of %zu", in.position(), mem.n);
        } else {
            REQUIRE(r == OK, "%llu bytes claimed with %zu left: %s", (unsigned long long)claimed, left, code_name(r));
            check(v, View{at, std::size_t(claimed)}, mem.p, "claim");
            REQUIRE(in.position() == at + claimed, "position %zu", in.position());
        }
        if (left > 1) ctx.nontrivial();
        ctx.label(claimed > left ? "too long" : "fits");
        if (ctx.sampling()) ctx.sample("%s/%d: %llu claimed, %zu left", C::name, W::policy, (unsigned long long)claimed, left);
    }
};

// Unsized views take all that remains.
template <typename V, typename C>
void rest(eng::Ctx & ctx, const void *)
{
    using byte = typename C::byte;
    auto bytes = random_bytes(ctx.src, length(ctx, ctx.src.flip(1, 8) ? 70000 : 300));
    Exact mem(bytes);
    auto start = ctx.src.below(mem.n + 1);
    std::span<const byte> s{reinterpret_cast<const byte *>(mem.p), mem.n};
    auto in = C::in(s);
    in.reset(start);
    std::size_t at = start;
    auto verify = [&](const auto & v, std::errc r) {
        REQUIRE(r == OK, "%s", code_name(r));
        REQUIRE(v.size() == mem.n - at, "view of %zu bytes with %zu left", v.size(), mem.n - at);
        REQUIRE(v.empty() || static_cast<const void *>(v.data()) == mem.p + at, "view at the wrong place");
        REQUIRE(in.position() == mem.n, "position %zu of %zu", in.position(), mem.n);
    };
    auto kind = ctx.src.below(5);
    if (kind == 0 && mem.n - start >= 2) {
        struct { std::uint16_t x; unsized_t<V> v; } h{};
        at = start + 2;
        std::errc r = in(h);
        verify(h.v, r);
    } else if (kind == 1) {
        V v{};
        verify(v, in(zpp::bits::unsized(v)));
    } else if (kind == 2) {
        struct { unsized_t<V> v; } h{};
        std::errc r = in(h);
        verify(h.v, r);
    } else if (kind == 3) {
        // then nothing is left
        unsized_t<V> v{}, w{};
        std::errc r = in(v, w);
        verify(v, r);
        REQUIRE(w.empty(), "%zu bytes after the end", w.size());
        std::uint8_t x;
        REQUIRE(in(x) == std::errc::result_out_of_range, "a byte after the end");
    } else {
        unsized_t<V> v{};
        std::errc r = in(v);
        verify(v, r);
    }
    if (mem.n - start > 1) ctx.nontrivial();
    if (ctx.sampling()) ctx.sample("%s: %zu of %zu bytes as a view", C::name, std::size_t(mem.n - start), mem.n);
}

// ---------------------------------------------------------------- spans filled in place
struct pod { std::uint16_t a{}, b{}; };
struct padded { std::uint8_t a{}; std::uint32_t b{}; std::uint16_t c{}; };
struct text { std::string s; std::uint16_t n{}; };
enum class color : std::uint16_t { red, green = 0x0102 };
} // namespace c14
MODEL_STRUCT(c14::pod, s.a, s.b)
MODEL_STRUCT(c14::padded, s.a, s.b, s.c)
MODEL_STRUCT(c14::text, s.s, s.n)
namespace c14
{
template <typename T>
void fill(eng::Ctx & ctx, std::vector<T> & v, std::size_t n)
{
    model::G g{ctx.src};
    g.big = false;
    g.budget = 30;
    g.limit(40);
    g.depth = 2;
    v.resize(n);
    std::size_t own = std::min<std::size_t>(n, 12);
    for (std::size_t i = 0; i < own; ++i) model::M<T>::gen(g, v[i]);
    for (std::size_t i = own; i < n; ++i) v[i] = v[i % own];
}

// SizeKind: -2 fixed extent, -3 unsized, -4 unsized(), otherwise W.
template <typename T, typename C, typename W>
void sized_span(eng::Ctx & ctx, const void *)
{
    using byte = typename C::byte;
    using S = typename W::template t<std::span<T>>;
    auto limit = std::min<std::size_t>(policy_max(W::policy < 0 ? C::cfg.size : W::policy), ctx.src.flip(1, 10) ? 3000 : 40);
    std::vector<T> value, storage;
    fill(ctx, value, length(ctx, limit));
    Enc e;
    e.cfg = C::cfg;
    e.out = random_bytes(ctx.src, ctx.src.small(5));
    auto start = e.out.size();
    put_size<C>(e, value.size(), W::policy);
    for (auto & x : value) model::M<T>::enc(x, e);
    auto encoded = e.out.size();
    // writing a span gives the same
    if (ctx.src.flip(1, 3)) {
        typename C::container data(reinterpret_cast<const byte *>(e.out.data()), reinterpret_cast<const byte *>(e.out.data()) + start);
        auto out = C::out(data);
        out.reset(start);
        std::errc r{};
        if (ctx.src.flip()) { S s{value.data(), value.size()}; r = out(s); }
        else { typename W::template t<std::span<const T>> s{value.data(), value.size()}; r = out(s); }
        REQUIRE(r == OK, "writing: %s", code_name(r));
        REQUIRE(out.position() == encoded && data.size() == encoded && equal_bytes(data.data(), e.out.data(), encoded), "a span of %zu items is written as %s, expected %s",
            value.size(), hex(data.data(), out.position()).c_str(), hex(e.out).c_str());
        ctx.label("written");
    }
    // room around the needed one
    std::size_t room = value.size();
    switch (ctx.src.below(3)) {
    case 0: break;
    case 1: room += ctx.src.below(5); break;
    default: room -= std::min<std::size_t>(room, ctx.src.below(4));
    }
    std::size_t guard = 1 + ctx.src.below(2);
    fill(ctx, storage, room + 2 * guard);
    auto old = storage;
    bool cut = ctx.src.flip(1, 6);
    std::size_t size = encoded;
    if (cut && encoded > start) size = start + ctx.src.below(encoded - start);
    else cut = false;
    auto tail = cut ? 0 : ctx.src.small(4);
    Exact mem(size + tail);
    if (size) std::memcpy(mem.p, e.out.data(), size);
    std::memset(mem.p + size, 0xcc, tail);
    std::span<const byte> in_span{reinterpret_cast<const byte *>(mem.p), mem.n};
    auto in = C::in(in_span);
    in.reset(start);
    std::span<T> all{storage};
    S s{storage.data() + guard, room};
    std::errc r = in(s);
    auto same_outside = [&](std::size_t lo, std::size_t hi) {
        for (std::size_t i = 0; i < storage.size(); ++i)
            if (i < lo || i >= hi)
                REQUIRE(model::M<T>::eq(storage[i], old[i]), "item %zu outside the span's %zu..%zu changed", i, lo, hi);
    };
    if (cut) {
        REQUIRE(r == std::errc::result_out_of_range, "%zu of %zu bytes: %s", size - start, encoded - start, code_name(r));
        same_outside(guard, guard + std::min(room, value.size()));
        ctx.label("cut");
    } else if (value.size() > room) {
        REQUIRE(r == std::errc::result_out_of_range, "%zu items into a span of %zu: %s", value.size(), room, code_name(r));
        same_outside(0, 0);
        ctx.label("too long");
    } else {
        REQUIRE(r == OK, "%zu items into a span of %zu: %s", value.size(), room, code_name(r));
        REQUIRE(s.size() == value.size() && s.data() == storage.data() + guard, "the span has %zu items at %td, expected %zu at %zu", s.size(), s.data() - storage.data(), value.size(), guard);
        for (std::size_t i = 0; i < value.size(); ++i) REQUIRE(model::M<T>::eq(storage[guard + i], value[i]), "item %zu of %zu differs", i, value.size());
        same_outside(guard, guard + value.size());
        REQUIRE(in.position() == encoded, "position %zu, expected %zu", in.position(), encoded);
        ctx.label(value.size() < room ? "shrunk" : "full");
    }
    if (value.size()) ctx.nontrivial();
    if (ctx.sampling()) ctx.sample("%s/%d: %zu items of %zu bytes into room for %zu%s", C::name, W::policy, value.size(), sizeof(T), room, cut ? ", cut" : "");
}

// Spans without a size: exactly their items.
template <typename T, typename C, int Kind>
void unsized_span(eng::Ctx & ctx, const void *)
{
    using byte = typename C::byte;
    constexpr std::size_t N = 5;
    std::vector<T> value, storage;
    fill(ctx, value, Kind == 2 ? N : length(ctx, ctx.src.flip(1, 10) ? 3000 : 40));
    Enc e;
    e.cfg = C::cfg;
    e.out = random_bytes(ctx.src, ctx.src.small(5));
    auto start = e.out.size();
    for (auto & x : value) model::M<T>::enc(x, e);
    auto encoded = e.out.size();
    std::size_t guard = 1 + ctx.src.below(2), n = value.size();
    fill(ctx, storage, n + 2 * guard);
    auto old = storage;
    auto run = [&](auto & archive, T * p) -> std::errc {
        if constexpr (Kind == 0) { unsized_t<std::span<T>> s{p, n}; return archive(s); }
        else if constexpr (Kind == 1) { std::span<T> s{p, n}; return archive(zpp::bits::unsized(s)); }
        else if (ctx.src.flip()) { std::span<T, N> s{p, N}; return archive(s); }
        else return archive(std::span<T, N>{p, N});
    };
    if (ctx.src.flip(1, 3)) {
        typename C::container data(reinterpret_cast<const byte *>(e.out.data()), reinterpret_cast<const byte *>(e.out.data()) + start);
        auto out = C::out(data);
        out.reset(start);
        REQUIRE(run(out, value.data()) == OK, "writing failed");
        REQUIRE(out.position() == encoded && data.size() == encoded && equal_bytes(data.data(), e.out.data(), encoded), "%zu items are written as %s, expected %s", n,
            hex(data.data(), out.position()).c_str(), hex(e.out).c_str());
        ctx.label("written");
    }
    bool cut = encoded > start && ctx.src.flip(1, 6);
    std::size_t size = cut ? start + ctx.src.below(encoded - start) : encoded;
    auto tail = cut ? 0 : ctx.src.small(4);
    Exact mem(size + tail);
    if (size) std::memcpy(mem.p, e.out.data(), size);
    std::memset(mem.p + size, 0xcc, tail);
    std::span<const byte> in_span{reinterpret_cast<const byte *>(mem.p), mem.n};
    auto in = C::in(in_span);
    in.reset(start);
    std::errc r = run(in, storage.data() + guard);
    for (std::size_t i = 0; i < storage.size(); ++i)
        if (i < guard || i >= guard + n) REQUIRE(model::M<T>::eq(storage[i], old[i]), "item %zu outside the span changed", i);
    if (cut) {
        REQUIRE(r == std::errc::result_out_of_range, "%zu of %zu bytes: %s", size - start, encoded - start, code_name(r));
    } else {
        REQUIRE(r == OK, "%s", code_name(r));
        for (std::size_t i = 0; i < n; ++i) REQUIRE(model::M<T>::eq(storage[guard + i], value[i]), "item %zu of %zu differs", i, n);
        REQUIRE(in.position() == encoded, "position %zu, expected %zu", in.position(), encoded);
    }
    ctx.label(cut ? "cut" : "full");
    if (n) ctx.nontrivial();
    if (ctx.sampling()) ctx.sample("%s: unsized span of %zu items%s", C::name, n, cut ? ", cut" : "");
}

template <typename T, typename C>
void add_spans(const char * name)
{
    auto reg = [&](const char * what, eng::CaseFn f) { char * n = static_cast<char *>(std::malloc(80)); std::snprintf(n, 80, "span.%s.%s.%s", name, C::name, what); for (char * q = n; *q; ++q) if (*q == ' ') *q = '_'; eng::Registrar{n, f}; };
    reg("by_archive", &sized_span<T, C, by_archive>);
    reg("1b", &sized_span<T, C, by<std::uint8_t>>);
    reg("2b", &sized_span<T, C, by<std::uint16_t>>);
    reg("4b", &sized_span<T, C, by<std::uint32_t>>);
    reg("8b", &sized_span<T, C, by<std::uint64_t>>);
    reg("varint", &sized_span<T, C, by<zpp::bits::vsize_t>>);
    reg("native", &sized_span<T, C, native>);
    reg("unsized_t", &unsized_span<T, C, 0>);
    reg("unsized()", &unsized_span<T, C, 1>);
    reg("fixed", &unsized_span<T, C, 2>);
}
template <typename V, typename C>
void add_views(const char * name)
{
    auto reg = [&](const char * what, eng::CaseFn f) { char * n = static_cast<char *>(std::malloc(80)); std::snprintf(n, 80, "view.%s.%s.%s", name, C::name, what); for (char * q = n; *q; ++q) if (*q == ' ') *q = '_'; eng::Registrar{n, f}; };
#define VIEW(N, W) reg("stream_" N, &const_views<V, C, W>::stream); reg("claim_" N, &const_views<V, C, W>::claim);
    VIEW("by_archive", by_archive)
    VIEW("1b", by<std::uint8_t>)
    VIEW("2b", by<std::uint16_t>)
    VIEW("4b", by<std::uint32_t>)
    VIEW("8b", by<std::uint64_t>)
    VIEW("varint", by<zpp::bits::vsize_t>)
    VIEW("native", native)
    reg("rest", &rest<V, C>);
}
} // namespace c14
#define C14_SPANS(ID, T, CFG) static bool ID = (c14::add_spans<T, cfgs::CFG>(#T), true);
#define C14_VIEWS(ID, V, CFG) static bool ID = (c14::add_views<V, cfgs::CFG>(#V), true);
