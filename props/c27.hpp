// C27: owning pointers and recursive structures.
#pragma once
#include "common.hpp"
#include "configs.hpp"
#include <algorithm>
#include <memory>
#include <new>

namespace c27
{
using model::Enc;
using model::M;

// Counts its instances.
struct counted
{
    static inline long live = 0;
    counted() { ++live; }
    counted(const counted & o) : v(o.v) { ++live; }
    counted(counted && o) noexcept : v(o.v) { ++live; }
    counted & operator=(const counted &) = default;
    ~counted() { --live; v = 0xdead; }
    using serialize = zpp::bits::members<1>;
    std::uint16_t v{};
};
// Can only be made by the library.
class hidden
{
    friend zpp::bits::access;
    friend struct model::M<hidden>;
    using serialize = zpp::bits::members<2>;
    hidden() = default;
    counted a;
    std::unique_ptr<std::uint16_t> b;
};
} // namespace c27
MODEL_STRUCT(c27::counted, s.v)
template <> struct model::M<c27::hidden> : model::StructModel<c27::hidden, model::M<c27::hidden>>
{
    static c27::hidden fresh() { return c27::hidden(); }
    static auto tie(auto & s) { return std::tie(s.a, s.b); }
    static constexpr bool hostile = true, ordered = true;
    static constexpr std::size_t min_bytes = 0;
    struct maker { c27::hidden * operator()() const { return new c27::hidden(); } };
    static c27::hidden * make() { return new c27::hidden(); }
};
template <> struct model::M<std::unique_ptr<c27::hidden>> : model::Base<std::unique_ptr<c27::hidden>>
{
    using P = std::unique_ptr<c27::hidden>;
    static constexpr std::size_t min_bytes = 0;
    static void gen(G & g, P & p) { Deeper d{g}; p.reset(M<c27::hidden>::make()); M<c27::hidden>::gen(g, *p); }
    static void enc(const P & p, Enc & e) { if (p) M<c27::hidden>::enc(*p, e); }
    static bool eq(const P & a, const P & b) { return a && b ? a.get() != b.get() && M<c27::hidden>::eq(*a, *b) : !a && !b; }
};

namespace c27
{
// Visits every pointer of a graph, parents first: f(pointer, nullable).
template <typename T, typename F>
void walk(T & t, F & f)
{
    using U = std::remove_cv_t<T>;
    if constexpr (model::Scalar<U> || std::is_same_v<U, std::string> || std::is_same_v<U, std::monostate>) {
    } else if constexpr (requires { t.get(); typename U::element_type; }) {
        f(t);
        if (t) walk(*t, f);
    } else if constexpr (requires { t.has_value(); *t; }) {
        if (t) walk(*t, f);
    } else if constexpr (requires { t.valueless_by_exception(); }) {
        std::visit([&](auto & x) { walk(x, f); }, t);
    } else if constexpr (requires { t.begin(); typename U::mapped_type; }) {
        for (auto & x : t) walk(x.second, f);
    } else if constexpr (std::is_array_v<U> || requires { t.begin(); }) {
        for (auto & x : t) walk(x, f);
    } else if constexpr (requires { std::tuple_size<U>::value; }) {
        std::apply([&](auto &... x) { (..., walk(x, f)); }, t);
    } else {
        std::apply([&](auto &... x) { (..., walk(x, f)); }, M<U>::tie(t));
    }
}
template <typename P> constexpr bool nullable = false;
template <typename T> constexpr bool nullable<zpp::bits::optional_ptr<T>> = true;
template <typename P> constexpr bool shared = requires(P p) { p.use_count(); };

struct Pointers
{
    std::vector<const void *> at;
    std::size_t depth = 0, shared_more = 0, nulls = 0;
    void operator()(auto & p)
    {
        if (!p) { ++nulls; return; }
        at.push_back(static_cast<const void *>(p.get()));
        if constexpr (shared<std::remove_cvref_t<decltype(p)>>) shared_more += p.use_count() != 1;
    }
};

template <typename T, typename C>
struct test
{
    static void generate(eng::Ctx & ctx, T & t, unsigned shape)
    {
        model::G g{ctx.src};
        g.big = false;
        switch (shape) {
        case 0: g.budget = 20; break;
        case 1: g.budget = 200; break;
        case 2: g.budget = 1500; g.keep = 15; g.of = 16; g.max_depth = 24; break;
        default: g.budget = 60 + ctx.src.below(240); g.keep = 31; g.of = 32; g.max_depth = 1500; // a long chain
        }
        M<T>::gen(g, t);
    }
    static Pointers pointers(T & t)
    {
        Pointers p;
        walk(t, p);
        return p;
    }
    static auto span(const Exact & mem) { return std::span<const typename C::byte>{reinterpret_cast<const typename C::byte *>(mem.p), mem.n}; }

    // Everything the result owns is its own.
    static void check_owned(T & got, T & source, const char * what)
    {
        auto a = pointers(got), b = pointers(source);
        REQUIRE(a.at.size() == b.at.size() && a.nulls == b.nulls, "%s: %zu pointees and %zu null pointers, expected %zu and %zu", what, a.at.size(), a.nulls, b.at.size(), b.nulls);
        REQUIRE(!a.shared_more, "%s: %zu shared pointers are not the only owner", what, a.shared_more);
        std::sort(a.at.begin(), a.at.end());
        std::sort(b.at.begin(), b.at.end());
        for (std::size_t i = 1; i < a.at.size(); ++i) REQUIRE(a.at[i] != a.at[i - 1], "%s: two pointers share a pointee", what);
        std::vector<const void *> both;
        std::set_intersection(a.at.begin(), a.at.end(), b.at.begin(), b.at.end(), std::back_inserter(both));
        REQUIRE(both.empty(), "%s: a pointee of the source is part of the result", what);
    }

    static void run(eng::Ctx & ctx, const void *)
    {
        auto before = counted::live;
        body(ctx);
        REQUIRE(counted::live == before, "%ld objects were not destroyed", counted::live - before);
    }

    static void body(eng::Ctx & ctx)
    {
        static constexpr const char * shapes[] = {"small", "medium", "wide", "deep"};
        auto shape = unsigned(ctx.src.below(4));
        T source = M<T>::fresh();
        generate(ctx, source, shape);
        // pointees the source has twice become two
        if (ctx.src.flip(1, 3)) {
            std::shared_ptr<std::string> s;
            std::shared_ptr<counted> c;
            auto alias = [&](auto & p) {
                using P = std::remove_cvref_t<decltype(p)>;
                if constexpr (std::is_same_v<P, std::shared_ptr<std::string>>) { if (s) p = s; else s = p; }
                else if constexpr (std::is_same_v<P, std::shared_ptr<counted>>) { if (c) p = c; else c = p; }
            };
            walk(source, alias);
            if ((s && s.use_count() > 2) || (c && c.use_count() > 2)) ctx.label("shared in the source");
        }
        Enc e;
        e.cfg = C::cfg;
        M<T>::enc(source, e);
        auto total = pointers(source).at.size();

        typename C::container data;
        std::errc r = C::out(data)(source);
        REQUIRE(r == OK && data.size() == e.out.size() && equal_bytes(data.data(), e.out.data(), data.size()), "writing %zu pointees: %s: %s (%zu), expected %s (%zu)", total, code_name(r), hex(data.data(), data.size()).c_str(), data.size(),
                hex(e.out).c_str(), e.out.size());

        auto read = [&](T & t, const char * what) {
            Exact mem(e.out);
            auto in = C::in(*std::make_unique<std::span<const typename C::byte>>(span(mem)));
            std::errc q = in(t);
            REQUIRE(q == OK && in.position() == mem.n, "%s: %s at %zu of %zu: %s", what, code_name(q), in.position(), mem.n, hex(e.out).c_str());
            REQUIRE(M<T>::eq(t, source), "%s: another value: %s", what, hex(e.out).c_str());
            check_owned(t, source, what);
        };
        T target = M<T>::fresh();
        if (ctx.src.flip()) generate(ctx, target, unsigned(ctx.src.below(3)));
        switch (ctx.src.below(6)) {
        case 0: {
            // owners elsewhere keep their objects as they are
            std::vector<std::shared_ptr<std::string>> s;
            std::vector<std::shared_ptr<counted>> c;
            auto keep = [&](auto & p) {
                using P = std::remove_cvref_t<decltype(p)>;
                if constexpr (std::is_same_v<P, std::shared_ptr<std::string>>) { if (p) s.push_back(p); }
                else if constexpr (std::is_same_v<P, std::shared_ptr<counted>>) { if (p) c.push_back(p); }
            };
            walk(target, keep);
            std::vector<std::string> sv;
            std::vector<std::uint16_t> cv;
            for (auto & p : s) sv.push_back(*p);
            for (auto & p : c) cv.push_back(p->v);
            read(target, "over another graph");
            for (std::size_t i = 0; i < s.size(); ++i) REQUIRE(*s[i] == sv[i] && s[i].use_count() == std::count(s.begin(), s.end(), s[i]), "an object with another owner changed");
            for (std::size_t i = 0; i < c.size(); ++i) REQUIRE(c[i]->v == cv[i] && c[i].use_count() == std::count(c.begin(), c.end(), c[i]), "an object with another owner changed");
            ctx.label("reused target");
            break;
        }
        case 1: {
            // cut somewhere, then complete
            if (e.out.empty()) break;
            auto cut = ctx.src.below(e.out.size());
            {
                Exact mem(Bytes(e.out.begin(), e.out.begin() + std::ptrdiff_t(cut)));
                auto s = span(mem);
                auto in = C::in(s);
                std::errc q = in(target);
                REQUIRE(q == std::errc::result_out_of_range && in.position() <= mem.n, "%zu of %zu bytes: %s at %zu", std::size_t(cut), e.out.size(), code_name(q), in.position());
                REQUIRE(pointers(target).shared_more == 0, "after a failure a shared pointer has another owner");
            }
            read(target, "after a failure");
            ctx.label("cut");
            break;
        }
        case 2: {
            // memory runs out
            auto n = 1 + ctx.src.below(total + 8);
            bool failed = false;
            {
                Exact mem(e.out);
                auto s = span(mem);
                auto in = C::in(s);
                try {
                    eng::alloc_fail_in = n;
                    std::errc q = in(target);
                    eng::alloc_fail_in = 0;
                    REQUIRE(q == OK && M<T>::eq(target, source), "reading with memory for %zu allocations: %s", std::size_t(n), code_name(q));
                } catch (const std::bad_alloc &) {
                    failed = true;
                }
                eng::alloc_fail_in = 0;
            }
            read(target, "after memory ran out");
            if (failed) ctx.label("out of memory");
            break;
        }
        case 3: {
            // a null owner cannot be written
            std::size_t owners = 0;
            auto count = [&](auto & p) { owners += !nullable<std::remove_cvref_t<decltype(p)>>; };
            walk(source, count);
            if (!owners) break;
            std::size_t which = ctx.src.below(owners), i = 0;
            auto drop = [&](auto & p) {
                if constexpr (!nullable<std::remove_cvref_t<decltype(p)>>) {
                    if (i++ == which) p.reset();
                }
            };
            walk(source, drop);
            typename C::container other;
            std::errc q = C::out(other)(source);
            REQUIRE(q == std::errc::invalid_argument, "writing a null owning pointer: %s", code_name(q));
            std::vector<std::byte> fixed(e.out.size() + 16);
            std::span<std::byte> s{fixed};
            q = C::out(s)(source);
            REQUIRE(q == std::errc::invalid_argument, "writing a null owning pointer to a fixed buffer: %s", code_name(q));
            ctx.label("null owner");
            break;
        }
        case 4: {
            // damaged
            auto bytes = e.out;
            auto n = 1 + ctx.src.small(4);
            for (std::size_t i = 0; i < n && !bytes.empty(); ++i) {
                auto & b = bytes[ctx.src.below(bytes.size())];
                b = static_cast<unsigned char>(ctx.src.flip() ? ctx.src.below(4) : ctx.src.bits());
            }
            if (ctx.src.flip(1, 4)) bytes.resize(ctx.src.below(bytes.size() + 1));
            Exact mem(bytes);
            auto s = span(mem);
            auto in = C::in(s, zpp::bits::alloc_limit<1 << 16>{});
            std::errc q = in(target);
            REQUIRE(in.position() <= mem.n, "position %zu of %zu", in.position(), mem.n);
            if (q == OK) {
                typename C::container again;
                std::errc w = C::out(again)(target);
                REQUIRE(w == OK, "what was read cannot be written: %s", code_name(w));
                T second = M<T>::fresh();
                std::errc x = C::in(again)(second);
                REQUIRE(x == OK && M<T>::eq(second, target), "what was read does not survive: %s", code_name(x));
                check_owned(second, target, "damaged");
                ctx.label("damaged, accepted");
            } else {
                REQUIRE(q == std::errc::result_out_of_range || q == std::errc::message_size || q == std::errc::bad_message || q == std::errc::value_too_large, "damaged: %s", code_name(q));
                ctx.label("damaged, refused");
            }
            break;
        }
        default:
            read(target, "reading");
            ctx.label("read");
        }
        ctx.label(shapes[shape]);
        if (total > 2) ctx.nontrivial();
        if (ctx.sampling()) ctx.sample("%s, %zu pointees: %s", shapes[shape], total, hex(e.out).c_str());
    }
};
} // namespace c27

#define C27(NAME, T, C) static eng::Registrar c27_##NAME{"C27(" #NAME ")", &c27::test<T, cfgs::C>::run};
