// C13: composition is concatenation.
#pragma once
#include "common.hpp"
#include "configs.hpp"

namespace c13
{
template <typename Tuple> struct fresh;
template <typename... T> struct fresh<std::tuple<T...>>
{
    static std::tuple<T...> make() { return std::tuple<T...>{model::M<T>::fresh()...}; }
};
// one call with all the items, or one call per item
inline std::errc call(auto & archive, auto & items, bool each)
{
    if (!each) return std::apply([&](auto &... x) -> std::errc { return archive(x...); }, items);
    std::errc r{};
    std::apply([&](auto &... x) { (void)(... && ((r = archive(x)) == std::errc{})); }, items);
    return r;
}
template <typename C>
Bytes write(eng::Ctx & ctx, auto & items, std::errc & r)
{
    bool each = ctx.src.flip();
    if (ctx.src.flip(1, 3)) {
        Exact mem(100000);
        std::memset(mem.p, 0xa5, mem.n);
        std::span<typename C::byte> s{reinterpret_cast<typename C::byte *>(mem.p), mem.n};
        auto out = C::out(s);
        r = call(out, items, each);
        return Bytes(mem.p, mem.p + out.position());
    }
    typename C::container data;
    auto out = C::out(data);
    r = call(out, items, each);
    auto p = reinterpret_cast<const unsigned char *>(data.data());
    return Bytes(p, p + data.size());
}

template <typename D, typename C, std::size_t I = 0>
void group(eng::Ctx & ctx, std::size_t i, const typename D::flat & flat, Bytes & bytes, std::string & trace)
{
    if constexpr (I < std::tuple_size_v<typename D::groups>) {
        if (I != i) return group<D, C, I + 1>(ctx, i, flat, bytes, trace);
        using G = std::tuple_element_t<I, typename D::groups>;
        auto t = fresh<G>::make();
        trace += " group" + std::to_string(I);
        Exact mem(bytes);
        std::span<const typename C::byte> s{reinterpret_cast<const typename C::byte *>(mem.p), mem.n};
        auto in = C::in(s);
        auto r = call(in, t, ctx.src.flip());
        REQUIRE(r == OK && in.position() == mem.n, "reading%s: %s at %zu of %zu: %s", trace.c_str(), code_name(r), in.position(), mem.n, hex(bytes).c_str());
        auto leaves = D::leaves(std::integral_constant<std::size_t, I>{}, t);
        [&]<std::size_t... K>(std::index_sequence<K...>) {
            (..., [&] {
                using T = std::tuple_element_t<K, typename D::flat>;
                REQUIRE(model::M<T>::eq(std::get<K>(leaves), std::get<K>(flat)), "reading%s: item %zu differs: %s", trace.c_str(), K, hex(bytes).c_str());
            }());
        }(std::make_index_sequence<std::tuple_size_v<typename D::flat>>{});
        Bytes again = write<C>(ctx, t, r);
        REQUIRE(r == OK && again == bytes, "writing%s: %s: %s, expected %s", trace.c_str(), code_name(r), hex(again).c_str(), hex(bytes).c_str());
        bytes = again;
    }
}

template <typename D, typename C>
void run(eng::Ctx & ctx, const void *)
{
    using F = typename D::flat;
    auto flat = fresh<F>::make();
    model::G g{ctx.src};
    g.big = false;
    g.budget = 60;
    g.limit(200);
    model::M<F>::gen(g, flat);
    // the parts on their own
    Bytes parts;
    std::apply([&](auto &... x) { (..., [&] {
        typename C::container data;
        auto out = C::out(data);
        std::errc r = out(x);
        REQUIRE(r == OK, "writing one item: %s", code_name(r));
        auto p = reinterpret_cast<const unsigned char *>(data.data());
        parts.insert(parts.end(), p, p + data.size());
    }()); }, flat);
    model::Enc e;
    e.cfg = C::cfg;
    model::M<F>::enc(flat, e);
    REQUIRE(parts == e.out, "the parts are %s, expected %s", hex(parts).c_str(), hex(e.out).c_str());
    std::errc r;
    Bytes bytes = write<C>(ctx, flat, r);
    REQUIRE(r == OK && bytes == parts, "the items together are %s (%s), their parts %s", hex(bytes).c_str(), code_name(r), hex(parts).c_str());
    {
        std::tuple<F &> nested{flat};
        bytes = write<C>(ctx, nested, r);
        REQUIRE(r == OK && bytes == parts, "the items as a tuple are %s (%s), their parts %s", hex(bytes).c_str(), code_name(r), hex(parts).c_str());
    }
    if constexpr (D::same) {
        using T = std::tuple_element_t<0, F>;
        constexpr auto n = std::tuple_size_v<F>;
        T array[n];
        std::array<T, n> other;
        std::vector<T> unsized(n);
        auto into = [&](auto & target) {
            Exact mem(bytes);
            std::span<const typename C::byte> s{reinterpret_cast<const typename C::byte *>(mem.p), mem.n};
            auto in = C::in(s);
            std::errc q = in(target);
            REQUIRE(q == OK && in.position() == mem.n, "reading an array: %s at %zu of %zu", code_name(q), in.position(), mem.n);
        };
        auto equal = [&](auto & a) {
            std::size_t i = 0;
            std::apply([&](auto &... x) { (..., [&] { REQUIRE(model::M<T>::eq(x, a[i]), "array element %zu differs: %s", i, hex(bytes).c_str()); ++i; }()); }, flat);
        };
        into(array);
        equal(array);
        into(other);
        equal(other);
        auto u = zpp::bits::unsized(unsized);
        into(u);
        equal(unsized);
        auto check = [&](auto & x, const char * what) {
            typename C::container data;
            auto out = C::out(data);
            std::errc q = out(x);
            REQUIRE(q == OK && data.size() == parts.size() && equal_bytes(data.data(), parts.data(), parts.size()), "%s of %zu: %s: %s, its elements are %s", what, n, code_name(q), hex(data.data(), data.size()).c_str(), hex(parts).c_str());
        };
        check(array, "array");
        check(other, "std::array");
        check(u, "unsized vector");
        ctx.label("same types");
    }
    // read with any grouping, write with it, read with another one
    std::string trace;
    auto steps = 1 + ctx.src.below(3);
    for (std::size_t i = 0; i < steps; ++i) group<D, C>(ctx, ctx.src.below(std::tuple_size_v<typename D::groups>), flat, bytes, trace);
    if (std::tuple_size_v<F> > 1 && parts.size() > 1) ctx.nontrivial();
    if (ctx.sampling()) ctx.sample("%s: %zu items%s: %s", C::name, std::tuple_size_v<F>, trace.c_str(), hex(parts).c_str());
}
} // namespace c13
