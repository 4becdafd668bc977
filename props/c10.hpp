// C10: variants restore the right alternative and reject unknown ids.
#pragma once
#include "items.hpp"

namespace c10
{
enum class tag : std::uint16_t {};
struct key { std::uint8_t a{}; std::uint32_t b{}; std::uint16_t c{}; };
struct thrower {};
template <std::size_t I> struct nth { std::uint16_t v{}; };

using namespace zpp::bits::literals;

template <typename D>
struct Check
{
    using V = typename D::type;
    using MV = model::M<V>;
    eng::Ctx & ctx;

    static Bytes wire_id(std::size_t i, model::Cfg cfg)
    {
        Bytes b = D::id(i);
        if (cfg.swap && D::scalar) std::reverse(b.begin(), b.end());
        return b;
    }
    static void body(const V & v, model::Enc & e)
    {
        [&]<std::size_t... I>(std::index_sequence<I...>) {
            (void)(... || (v.index() == I && (model::M<std::variant_alternative_t<I, V>>::enc(std::get<I>(v), e), true)));
        }(std::make_index_sequence<std::variant_size_v<V>>{});
    }
    static void enc(const V & v, model::Enc & e)
    {
        auto id = wire_id(v.index(), e.cfg);
        e.raw(id.data(), id.size());
        body(v, e);
    }
    // an alternative chosen by the tape
    static void set(V & v, std::size_t i, model::G & g)
    {
        [&]<std::size_t... I>(std::index_sequence<I...>) {
            (void)(... || (i == I && ([&] {
                using X = std::variant_alternative_t<I, V>;
                X x = model::M<X>::fresh();
                model::M<X>::gen(g, x);
                v.template emplace<I>(std::move(x));
            }(), true)));
        }(std::make_index_sequence<std::variant_size_v<V>>{});
    }
    static V fresh() { return MV::fresh(); }
    static bool valueless(V & v)
    {
        if constexpr (D::thrower < D::size) {
            try { v.template emplace<D::thrower>(thrower{}); } catch (int) {}
        }
        return v.valueless_by_exception();
    }
    static void dirty(V & v, model::G & g, bool allow_valueless = true)
    {
        if (allow_valueless && D::thrower < D::size && g.src.flip(1, 6)) { valueless(v); return; }
        set(v, g.src.below(D::size), g);
    }
};

template <typename D, typename C>
void run(eng::Ctx & ctx, const void *)
{
    using K = Check<D>;
    using V = typename D::type;
    model::G g{ctx.src};
    g.big = false;
    g.budget = 40;
    g.limit(200);
    auto i = ctx.src.below(D::size);
    V v = K::fresh();
    K::set(v, i, g);
    if (i) ctx.label("not the first alternative");
    model::Enc e;
    e.cfg = C::cfg;
    K::enc(v, e);

    switch (ctx.src.below(6)) {
    case 0: case 1: { // round trip over any previous state
        Bytes out_data = random_bytes(ctx.src, ctx.src.small(5));
        std::vector<std::byte> data(out_data.size(), std::byte{0x5a});
        auto out = C::out(data);
        std::errc r = out(v);
        REQUIRE(r == OK && out.position() == e.out.size(), "writing alternative %zu: %s, %zu bytes, expected %zu", (std::size_t)i, code_name(r), out.position(), e.out.size());
        REQUIRE(equal_bytes(data.data(), e.out.data(), e.out.size()), "alternative %zu: %s, expected %s", (std::size_t)i, hex(data.data(), data.size()).c_str(), hex(e.out).c_str());
        Bytes all = e.out;
        all.resize(all.size() + ctx.src.small(5), 0xff);
        Exact mem(all);
        std::span<const std::byte> s{reinterpret_cast<const std::byte *>(mem.p), mem.n};
        V t = K::fresh();
        K::dirty(t, g);
        auto before = t.index();
        auto in = C::in(s);
        r = in(t);
        REQUIRE(r == OK, "reading alternative %zu over %zd: %s", (std::size_t)i, (ssize_t)before, code_name(r));
        REQUIRE(t.index() == i, "alternative %zu read as %zd (was %zd)", (std::size_t)i, (ssize_t)t.index(), (ssize_t)before);
        REQUIRE(K::MV::eq(t, v), "alternative %zu differs after reading over %zd: %s", (std::size_t)i, (ssize_t)before, hex(e.out).c_str());
        REQUIRE(in.position() == e.out.size(), "position %zu, expected %zu", in.position(), e.out.size());
        if (before != i) { ctx.nontrivial(); ctx.label("switches the alternative"); }
        if (before == std::variant_npos) ctx.label("over a valueless variant");
        break;
    }
    case 2: { // unknown ids
        auto n = D::id(0).size();
        Bytes id;
        if (n == 1 || ctx.src.flip(1, 4)) id = random_bytes(ctx.src, n);
        else {
            id = D::id(ctx.src.below(D::size));
            id[ctx.src.below(n)] ^= (unsigned char)(1u << ctx.src.below(8));
        }
        bool known = false;
        for (std::size_t k = 0; k < D::size; ++k) known = known || id == D::id(k);
        if (known) { ctx.label("known after all"); return; }
        if (C::cfg.swap && D::scalar) std::reverse(id.begin(), id.end());
        Bytes all = id;
        auto junk = random_bytes(ctx.src, 20);
        all.insert(all.end(), junk.begin(), junk.end());
        Exact mem(all);
        std::span<const std::byte> s{reinterpret_cast<const std::byte *>(mem.p), mem.n};
        V t = K::fresh();
        K::dirty(t, g);
        auto in = C::in(s);
        std::errc r = in(t);
        REQUIRE(r == std::errc::bad_message, "unknown id %s: %s", hex(id).c_str(), code_name(r));
        ctx.nontrivial();
        ctx.label("unknown id");
        break;
    }
    case 3: { // every truncation
        auto max = std::min<std::size_t>(e.out.size(), 40);
        for (std::size_t n = 0; n < max; ++n) {
            Exact mem(e.out.data(), n);
            std::span<const std::byte> s{reinterpret_cast<const std::byte *>(mem.p), mem.n};
            V t = K::fresh();
            K::dirty(t, g);
            auto in = C::in(s);
            std::errc r = in(t);
            REQUIRE(r == std::errc::result_out_of_range, "%zu of %zu bytes: %s", n, e.out.size(), code_name(r));
        }
        if (max > 1) ctx.nontrivial();
        ctx.label("truncated");
        break;
    }
    case 4: { // a valueless variant, alone and among others
        V t = K::fresh();
        if (!K::valueless(t)) { ctx.label("cannot be valueless"); return; }
        std::vector<std::byte> data;
        auto out = C::out(data);
        std::errc r = out(v, t, v);
        REQUIRE(r == std::errc::invalid_argument, "writing a valueless variant: %s", code_name(r));
        REQUIRE(out.position() == e.out.size() && equal_bytes(data.data(), e.out.data(), e.out.size()), "the item before the valueless variant is incomplete");
        ctx.nontrivial();
        ctx.label("valueless");
        break;
    }
    default: { // known ids: no id on the wire, same mapping
        if (i >= 12) return;
        model::Enc b;
        b.cfg = C::cfg;
        K::body(v, b);
        V t = K::fresh(), u = K::fresh(), w = K::fresh();
        K::dirty(t, g);
        K::dirty(u, g);
        K::dirty(w, g);
        auto was = t.index();
        D::known(i, [&](auto && fixed, auto && dynamic, auto) {
            std::vector<std::byte> data;
            auto out = C::out(data);
            auto k = fixed(v);
            std::errc r = out(k);
            REQUIRE(r == OK && out.position() == b.out.size() && equal_bytes(data.data(), b.out.data(), b.out.size()), "known id of alternative %zu: %s: %s, expected %s",
                    (std::size_t)i, code_name(r), hex(data.data(), out.position()).c_str(), hex(b.out).c_str());
            Bytes all = b.out;
            all.resize(all.size() + ctx.src.small(4), 0xee);
            Exact mem(all);
            std::span<const std::byte> s{reinterpret_cast<const std::byte *>(mem.p), mem.n};
            {
                auto in = C::in(s);
                r = in(fixed(t));
                REQUIRE(r == OK && t.index() == i && K::MV::eq(t, v) && in.position() == b.out.size(), "reading alternative %zu by its known id over %zd: %s, alternative %zd", (std::size_t)i, (ssize_t)was, code_name(r), (ssize_t)t.index());
            }
            {
                auto in = C::in(s);
                r = in(dynamic(u));
                REQUIRE(r == OK && u.index() == i && K::MV::eq(u, v) && in.position() == b.out.size(), "reading alternative %zu by a dynamic id: %s, alternative %zd", (std::size_t)i, code_name(r), (ssize_t)u.index());
            }
            if (b.out.size()) {
                Exact cut(b.out.data(), ctx.src.below(b.out.size()));
                std::span<const std::byte> c{reinterpret_cast<const std::byte *>(cut.p), cut.n};
                auto in = C::in(c);
                r = ctx.src.flip() ? std::errc(in(fixed(t))) : std::errc(in(dynamic(t)));
                REQUIRE(r == std::errc::result_out_of_range, "known id, %zu of %zu bytes: %s", cut.n, b.out.size(), code_name(r));
            }
            return OK;
        });
        // a dynamic id from the run time
        if constexpr (D::scalar) {
            std::conditional_t<sizeof(typename zpp::bits::traits::variant<V>::id_type) == 1, std::byte,
                std::conditional_t<sizeof(typename zpp::bits::traits::variant<V>::id_type) == 2, std::uint16_t,
                    std::conditional_t<sizeof(typename zpp::bits::traits::variant<V>::id_type) == 4, std::uint32_t, std::uint64_t>>> id{};
            auto raw = D::id(i);
            REQUIRE(raw.size() == sizeof(id), "id of %zu bytes, expected %zu", sizeof(id), raw.size());
            std::memcpy(&id, raw.data(), sizeof(id));
            Exact mem(b.out);
            std::span<const std::byte> s{reinterpret_cast<const std::byte *>(mem.p), mem.n};
            {
                auto in = C::in(s);
                std::errc r = in(zpp::bits::known_id(id, w));
                REQUIRE(r == OK && w.index() == i && K::MV::eq(w, v), "reading alternative %zu by a run time id: %s, alternative %zd", (std::size_t)i, code_name(r), (ssize_t)w.index());
            }
            auto other = raw;
            other[ctx.src.below(other.size())] ^= (unsigned char)(1 + ctx.src.below(255));
            bool known = false;
            for (std::size_t k = 0; k < D::size; ++k) known = known || other == D::id(k);
            if (!known) {
                std::memcpy(&id, other.data(), sizeof(id));
                auto in = C::in(s);
                std::errc r = in(zpp::bits::known_id(id, w));
                REQUIRE(r == std::errc::bad_message, "unknown run time id: %s", code_name(r));
            }
        }
        ctx.nontrivial();
        ctx.label("known id");
    }
    }
    if (ctx.sampling()) ctx.sample("%s: %zu alternatives, alternative %zu: %s", C::name, D::size, (std::size_t)i, hex(e.out).c_str());
}

// several variants: in a vector with existing elements, in a struct, after one another
template <typename D, typename C>
void many(eng::Ctx & ctx, const void *) requires std::is_default_constructible_v<typename D::type>
{
    using K = Check<D>;
    using V = typename D::type;
    model::G g{ctx.src};
    g.big = false;
    g.budget = 60;
    g.limit(200);
    auto n = ctx.src.small(8);
    std::vector<V> vs, old;
    model::Enc e;
    e.cfg = C::cfg;
    e.size(n);
    for (std::size_t i = 0; i < n; ++i) {
        vs.push_back(K::fresh());
        K::set(vs.back(), ctx.src.below(D::size), g);
        K::enc(vs.back(), e);
    }
    for (auto k = ctx.src.small(6); k; --k) {
        old.push_back(K::fresh());
        K::dirty(old.back(), g);
    }
    std::optional<V> o, p;
    if (ctx.src.flip()) { o = K::fresh(); K::set(*o, ctx.src.below(D::size), g); }
    if (ctx.src.flip()) { p = K::fresh(); K::dirty(*p, g); }
    e.byte(o ? 1 : 0);
    if (o) K::enc(*o, e);
    std::pair<std::uint16_t, V> q{0x1234, K::fresh()}, z{0, K::fresh()};
    K::set(q.second, ctx.src.below(D::size), g);
    K::dirty(z.second, g);
    e.value(q.first);
    K::enc(q.second, e);
    std::vector<std::byte> data;
    auto out = C::out(data);
    std::errc r = out(vs, o, q);
    REQUIRE(r == OK && data.size() == e.out.size() && equal_bytes(data.data(), e.out.data(), data.size()), "%zu variants: %s: %s, expected %s", (std::size_t)n, code_name(r), hex(data.data(), data.size()).c_str(), hex(e.out).c_str());
    Exact mem(e.out);
    std::span<const std::byte> s{reinterpret_cast<const std::byte *>(mem.p), mem.n};
    auto in = C::in(s);
    r = in(old, p, z);
    REQUIRE(r == OK && in.position() == mem.n, "reading %zu variants: %s", (std::size_t)n, code_name(r));
    REQUIRE(old.size() == n && bool(p) == bool(o) && z.first == q.first, "shape differs");
    for (std::size_t i = 0; i < n; ++i) REQUIRE(K::MV::eq(old[i], vs[i]), "element %zu of %zu differs", i, (std::size_t)n);
    REQUIRE(!o || K::MV::eq(*o, *p), "optional variant differs");
    REQUIRE(K::MV::eq(q.second, z.second), "variant in a pair differs");
    if (n > 1) ctx.nontrivial();
    ctx.label("several variants");
}
template <typename D, typename C> void many(eng::Ctx & ctx, const void * p) { run<D, C>(ctx, p); }
} // namespace c10
#define C10_CONFIG(DESC, NAME, SWAP, SIZE, ...)                                                    \
    namespace DESC { struct NAME                                                                   \
    {                                                                                              \
        static constexpr model::Cfg cfg{SWAP, SIZE};                                               \
        static constexpr const char * name = #DESC "_" #NAME;                                      \
        static auto out(auto & b) { return zpp::bits::out{b __VA_OPT__(,) __VA_ARGS__}; }          \
        static auto in(auto & b) { return zpp::bits::in{b __VA_OPT__(,) __VA_ARGS__}; }            \
    };                                                                                             \
    static eng::Registrar r1_##NAME{"variant_" #DESC "_" #NAME, &c10::run<desc, NAME>, nullptr, 4}; \
    static eng::Registrar r2_##NAME{"many_" #DESC "_" #NAME, &c10::many<desc, NAME>, nullptr, 1}; }
// many alternatives, ids by index
template <std::size_t I> struct model::M<c10::nth<I>> : model::StructModel<c10::nth<I>, model::M<c10::nth<I>>>
{
    static auto tie(auto & s) { return std::tie(s.v); }
    static constexpr bool hostile = true, ordered = true;
    static constexpr std::size_t min_bytes = 2;
};
#define C10_BIG(DESC, N)                                                                           \
    namespace DESC { template <typename> struct make; template <std::size_t... I> struct make<std::index_sequence<I...>> { using type = std::variant<c10::nth<I>...>; }; \
    struct desc { using type = make<std::make_index_sequence<N>>::type; static constexpr std::size_t size = N, thrower = N; static constexpr bool scalar = true; \
    static Bytes id(std::size_t i) { return {(unsigned char)i}; }                                  \
    template <typename F> static auto known(std::size_t i, F && f) {                               \
        if (i == 11) return f([](auto & v) { return zpp::bits::known_id<std::byte{11}>(v); }, [](auto & v) { return zpp::bits::known_id(zpp::bits::id_v<std::byte{11}>, v); }, std::integral_constant<std::size_t, 11>{}); \
        return std::errc{}; } }; }
using namespace c10;
