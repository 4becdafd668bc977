// C07: a growing output archive is an append-at-position byte log.
#pragma once
#include "items.hpp"

namespace c07
{
using items::Item;

enum fit { FIT, NO_FIT, EXACT };

// Name, container, fit policy, growth, model configuration, archive options
#define C07_CONFIG(NAME, CONTAINER, FITP, MUL, DIV, SWAP, SIZE, ...)                               \
    struct NAME                                                                                    \
    {                                                                                              \
        using container = CONTAINER;                                                               \
        static constexpr c07::fit policy = c07::FITP;                                              \
        static constexpr std::size_t mul = MUL, div = DIV;                                         \
        static constexpr model::Cfg cfg{SWAP, SIZE};                                               \
        static constexpr const char * name = #NAME;                                                \
        static auto out(auto & b, auto... o) { return zpp::bits::out{b __VA_OPT__(,) __VA_ARGS__, std::move(o)...}; } \
    };                                                                                             \
    static eng::Registrar reg_##NAME{"history_" #NAME, &c07::run<NAME>};

template <typename C>
struct History
{
    eng::Ctx & ctx;
    typename C::container data;
    Bytes model;
    std::size_t pos = 0;
    unsigned grown = 0, back = 0, writes = 0;
    std::string trace;

    void check(auto & out, const char * after)
    {
        auto n = data.size();
        REQUIRE(n == model.size(), "after %s: buffer holds %zu bytes, expected %zu [%s]", after, n, model.size(), trace.c_str());
        auto p = reinterpret_cast<const unsigned char *>(data.data());
        for (std::size_t i = 0; i < n; ++i)
            REQUIRE(p[i] == model[i], "after %s: byte %zu is %02x, expected %02x, position %zu [%s]", after, i, p[i], model[i], pos, trace.c_str());
        REQUIRE(out.position() == pos, "after %s: position %zu, expected %zu [%s]", after, out.position(), pos, trace.c_str());
        REQUIRE(std::as_const(out).position() == pos, "const position");
        auto done = out.processed_data();
        auto rest = out.remaining_data();
        REQUIRE(done.size() == pos && rest.size() == n - pos, "processed %zu, remaining %zu of %zu at %zu", done.size(), rest.size(), n, pos);
        REQUIRE((const void *)done.data() == (const void *)data.data() && (const void *)rest.data() == (const void *)(data.data() + pos), "processed/remaining data elsewhere");
        REQUIRE((const void *)&out.data() == (const void *)&data, "data() is not the buffer");
    }

    void write(auto & out)
    {
        model::G g{ctx.src};
        g.big = ctx.src.flip(1, 12);
        g.budget = 60;
        g.limit(C::cfg.size == model::SP_1 ? 255 : 2000);
        Item item = Item::generate(g);
        Bytes e = item.enc(C::cfg);
        auto old = data.size();
        auto want = pos + e.size();
        trace += " write" + std::to_string(item.v.index()) + "(" + std::to_string(e.size()) + ")@" + std::to_string(pos) + "/" + std::to_string(old);
        bool split = item.arity() > 1 && ctx.src.flip(1, 4);
        bool fails = !split && ctx.src.flip(1, 10);
        if (split) trace += "s";
        if (fails) trace += "f";
        if (fails) {
            // the call fails at its last item: those before it are written as ever
            auto r = std::visit([&](auto & t) -> std::errc {
                return std::apply([&](auto &... x) -> std::errc { return out(x..., std::unique_ptr<int>{}); }, t);
            }, item.v);
            REQUIRE(r == std::errc::invalid_argument, "%s for a null pointer [%s]", code_name(r), trace.c_str());
        } else {
            auto r = split ? item.call_each(out) : item.call(out);
            REQUIRE(r == std::errc{}, "%s [%s]", code_name(r), trace.c_str());
        }
        ++writes;
        if (want > old) ++grown; else if (e.size()) ++back;
        auto size = data.size();
        if constexpr (C::policy == FIT) {
            if (want >= old) REQUIRE(size == want, "buffer of %zu bytes is not trimmed to the %zu written ones [%s]", size, want, trace.c_str());
            else REQUIRE(size == old, "buffer size changed from %zu to %zu by a write up to %zu [%s]", old, size, want, trace.c_str());
        } else if constexpr (C::policy == EXACT) {
            REQUIRE(size == std::max(old, want), "exact growth from %zu to %zu for %zu bytes [%s]", old, size, want, trace.c_str());
        } else {
            if (want <= old) REQUIRE(size == old, "buffer size changed from %zu to %zu by a write up to %zu [%s]", old, size, want, trace.c_str());
            else {
                REQUIRE(size >= want, "buffer of %zu bytes after a write up to %zu [%s]", size, want, trace.c_str());
                REQUIRE(size <= std::max(want * C::mul / C::div, old), "buffer grown to %zu for %zu bytes, factor %zu/%zu [%s]", size, want, C::mul, C::div, trace.c_str());
                if (item.v.index() < 3) // a single scalar: one growth step
                    REQUIRE(size == want * C::mul / C::div, "buffer grown from %zu to %zu for %zu bytes, factor %zu/%zu [%s]", old, size, want, C::mul, C::div, trace.c_str());
            }
        }
        // what growing filled in beyond the written bytes is unspecified (value initialised by resize)
        auto p = reinterpret_cast<const unsigned char *>(data.data());
        auto keep = model.size();
        model.resize(size);
        for (std::size_t i = std::max(keep, want); i < size; ++i) model[i] = p[i];
        std::memcpy(model.data() + pos, e.data(), e.size());
        pos = want;
        check(out, "write");
    }

    // one archive over the buffer
    void session(auto & out, const char * how)
    {
        trace += std::string(" ") + how;
        check(out, how);
        auto n = 1 + ctx.src.small(10);
        for (std::size_t i = 0; i < n; ++i) {
            switch (ctx.src.below(7)) {
            case 0: case 1: case 2: case 3: write(out); break;
            case 4: {
                auto p = ctx.src.below(3) == 0 ? 0 : ctx.src.below(data.size() + 1);
                trace += " reset(" + std::to_string(p) + ")";
                if (p == 0 && ctx.src.flip()) out.reset(); else out.reset(p);
                pos = p;
                check(out, "reset");
                break;
            }
            case 5: {
                auto p = ctx.src.below(data.size() + 1);
                trace += " position=" + std::to_string(p);
                out.position() = p;
                pos = p;
                check(out, "position");
                break;
            }
            default: {
                // the buffer is the user's: it may change it between writes
                auto s = pos + ctx.src.small(50);
                trace += " resize(" + std::to_string(s) + ")";
                data.resize(s);
                model.resize(s);
                auto f = (unsigned char)ctx.src.below(256);
                for (std::size_t k = pos; k < s; ++k) { data[k] = (typename C::container::value_type)f; model[k] = f; }
                check(out, "resize of the data");
            }
            }
        }
    }
};

// Output of megabytes: a few long blocks, one after the other.
template <typename C>
void huge(eng::Ctx & ctx)
{
    static constexpr std::size_t sizes[] = {1000, 65536, 131072, 1 << 20, 2 << 20, 3000000, 5000000};
    auto length = [&] { auto n = ctx.src.pick(sizes); n += ctx.src.below(5); n -= ctx.src.below(5); return n; };
    typename C::container data;
    Bytes model;
    std::size_t pos = 0;
    auto out = C::out(data);
    std::string trace;
    for (auto k = 2 + ctx.src.below(4); k--;) {
        std::vector<unsigned char> block;
        if (ctx.src.flip(3, 4)) block.resize(length()); else block.resize(ctx.src.small(9));
        std::uint64_t x = ctx.src.bits();
        for (auto & b : block) b = (unsigned char)((x = x * 6364136223846793005ull + 1442695040888963407ull) >> 56);
        auto old = data.size();
        if (ctx.src.flip(1, 5)) { pos = ctx.src.below(pos + 1); out.reset(pos); trace += " reset"; }
        trace += " " + std::to_string(block.size()) + "@" + std::to_string(pos);
        std::errc r = out(zpp::bits::unsized(block));
        REQUIRE(r == std::errc{}, "%s [%s]", code_name(r), trace.c_str());
        auto want = pos + block.size();
        REQUIRE(out.position() == want, "position %zu, expected %zu [%s]", out.position(), want, trace.c_str());
        if (C::policy == FIT ? want >= old : C::policy == EXACT) REQUIRE(data.size() == std::max(want, C::policy == FIT ? 0 : old), "buffer of %zu bytes [%s]", (std::size_t)data.size(), trace.c_str());
        else if (want <= old) REQUIRE(data.size() == old, "buffer of %zu bytes [%s]", (std::size_t)data.size(), trace.c_str());
        else REQUIRE(data.size() >= want && data.size() <= std::max(want * C::mul / C::div, old), "buffer of %zu bytes [%s]", (std::size_t)data.size(), trace.c_str());
        if (model.size() < want) model.resize(want);
        if (block.size()) std::memcpy(model.data() + pos, block.data(), block.size());
        pos = want;
        auto n = std::min<std::size_t>(model.size(), data.size());
        REQUIRE(equal_bytes(data.data(), model.data(), n), "other contents [%s]", trace.c_str());
        REQUIRE(n == model.size(), "contents lost [%s]", trace.c_str());
    }
    ctx.label("megabytes");
    ctx.nontrivial();
    if (ctx.sampling()) ctx.sample("%s -> %zu bytes", trace.c_str(), (std::size_t)data.size());
}

template <typename C>
void run(eng::Ctx & ctx, const void *)
{
    if (C::name != std::string_view("limited") && ctx.src.below(1000) == 999) return huge<C>(ctx);
    History<C> h{ctx};
    auto initial = random_bytes(ctx.src, ctx.src.small(40));
    for (auto b : initial) h.data.push_back((typename C::container::value_type)b);
    h.model = initial;
    auto sessions = 1 + ctx.src.below(3);
    for (std::size_t i = 0; i < sessions; ++i) {
        switch (ctx.src.below(4)) {
        case 0: { auto out = C::out(h.data); h.pos = 0; h.session(out, "open"); break; }
        case 1: { auto out = C::out(h.data, zpp::bits::append{}); h.pos = h.model.size(); h.session(out, "append"); ctx.label("append"); break; }
        case 2: {
            auto n = ctx.src.small(200);
            auto out = C::out(h.data, zpp::bits::reserve{n});
            REQUIRE(h.data.capacity() >= n, "capacity %zu after reserve{%zu}", (std::size_t)h.data.capacity(), n);
            h.pos = 0;
            h.session(out, "reserve");
            ctx.label("reserve");
            break;
        }
        default: {
            auto n = ctx.src.small(100);
            bool app = ctx.src.flip();
            auto was = h.model.size();
            h.model.resize(n);
            if (app) {
                auto out = C::out(h.data, zpp::bits::append{}, zpp::bits::resize{n});
                h.pos = std::min(was, n);
                h.session(out, "append+resize");
            } else {
                auto out = C::out(h.data, zpp::bits::resize{n});
                h.pos = 0;
                h.session(out, "resize");
            }
            ctx.label("resize");
        }
        }
    }
    if (h.grown && h.back) ctx.label("grew and overwrote");
    if (h.writes >= 2 && h.grown) ctx.nontrivial();
    if (ctx.sampling()) ctx.sample("%.600s -> %zu bytes", h.trace.c_str(), h.model.size());
}
using namespace zpp::bits::options;
namespace e = zpp::bits::endian;
using vb = std::vector<std::byte>;
using vc = std::vector<char>;
using vu = std::vector<unsigned char>;
using st = std::string;
} // namespace c07
using namespace c07;
