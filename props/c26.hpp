// C26: the input archive's position always marks the consumed prefix.
#pragma once
#define ITEM_PACKS std::variant<                                                                   \
    P<u8>, P<u16>, P<u64>, P<double, std::int8_t>, P<string>, P<vector<u8>>, P<vector<u32>>, P<zpp::bits::vuint64_t>, \
    P<std::bitset<13>>, P<point>, P<padded>, P<mixed>, P<hidden>, P<custom>,                       \
    P<u8, u32, u16>, P<string, u64, vector<u16>>, P<zz, std::bitset<9>, color>, P<std::map<u16, string>, u8>, \
    P<std::optional<string>, std::array<u16, 3>, std::variant<u8, string>>, P<std::unique_ptr<u32>, vector<padded>>, \
    P<vector<string>, point, zpp::bits::vsize_t>, P<zpp::bits::vector1b<u16>, zpp::bits::vector8b<u8>>>
#include "items.hpp"

namespace c26
{
using items::Item;

struct Placed { std::size_t at, size; Item item; };

template <typename A, typename B>
bool is_at(A * a, B * b) { return static_cast<const void *>(a) == static_cast<const void *>(b); }

void partition(auto & in, const void * base, std::size_t n, std::size_t pos, const std::string & trace)
{
    REQUIRE(in.position() == pos && std::as_const(in).position() == pos, "position %zu, expected %zu [%s]", in.position(), pos, trace.c_str());
    auto done = in.processed_data();
    auto rest = in.remaining_data();
    REQUIRE(done.size() == pos && rest.size() == n - pos, "processed %zu, remaining %zu of %zu at %zu [%s]", done.size(), rest.size(), n, pos, trace.c_str());
    REQUIRE(is_at(done.data(), static_cast<const unsigned char *>(base)) && is_at(rest.data(), static_cast<const unsigned char *>(base) + pos), "processed/remaining data elsewhere [%s]", trace.c_str());
}

// A history of reads and moves over a buffer with several items.
template <typename C>
void history(eng::Ctx & ctx, const void *)
{
    std::string trace;
    Bytes bytes = random_bytes(ctx.src, ctx.src.small(6));
    std::vector<Placed> placed;
    auto n = 1 + ctx.src.small(7);
    for (std::size_t i = 0; i < n; ++i) {
        model::G g{ctx.src};
        g.big = ctx.src.flip(1, 20);
        g.budget = 40;
        g.limit(C::cfg.size == model::SP_1 ? 255 : 2000);
        auto item = Item::generate(g);
        auto e = item.enc(C::cfg);
        placed.push_back({bytes.size(), e.size(), std::move(item)});
        bytes.insert(bytes.end(), e.begin(), e.end());
        if (ctx.src.flip(1, 5)) {
            auto junk = random_bytes(ctx.src, ctx.src.small(5));
            bytes.insert(bytes.end(), junk.begin(), junk.end());
        }
    }
    typename C::holder holder(bytes);
    auto && view = holder.view();
    auto in = C::in(view);
    auto limited = C::in(view, zpp::bits::alloc_limit<4096>{});
    const void * base = holder.data();
    std::size_t pos = 0;
    unsigned reads = 0, moves = 0;
    auto steps = 2 + ctx.src.small(14);
    for (std::size_t i = 0; i < steps; ++i) {
        switch (ctx.src.below(8)) {
        case 0: case 1: case 2: case 3: { // the item here, or the next one
            std::size_t k = 0;
            while (k < placed.size() && placed[k].at < pos) ++k;
            if (k == placed.size()) k = ctx.src.below(placed.size());
            auto & p = placed[k];
            if (p.at != pos) { in.position() = p.at; ++moves; }
            auto t = p.item.blank();
            if (ctx.src.flip(1, 3)) { // over other content
                model::G g{ctx.src};
                g.big = false;
                g.budget = 10;
                std::visit([&]<typename T>(T & x) { model::M<T>::gen(g, x); }, t.v);
            }
            bool each = t.arity() > 1 && ctx.src.flip();
            trace += " read" + std::to_string(p.item.v.index()) + "@" + std::to_string(p.at);
            auto r = each ? t.call_each(in) : t.call(in);
            REQUIRE(r == OK, "%s [%s]", code_name(r), trace.c_str());
            REQUIRE(t.eq(p.item), "the item at %zu differs [%s]", p.at, trace.c_str());
            pos = p.at + p.size;
            ++reads;
            break;
        }
        case 4: {
            pos = ctx.src.flip(1, 3) ? 0 : ctx.src.below(bytes.size() + 1);
            trace += " reset(" + std::to_string(pos) + ")";
            if (pos == 0 && ctx.src.flip()) in.reset(); else in.reset(pos);
            ++moves;
            break;
        }
        case 5: {
            pos = ctx.src.below(bytes.size() + 1);
            trace += " position=" + std::to_string(pos);
            in.position() = pos;
            ++moves;
            break;
        }
        case 6: { // anywhere: must agree with a fresh archive over the rest
            auto at = ctx.src.below(bytes.size() + 1);
            limited.reset(at);
            auto & like = placed[ctx.src.below(placed.size())].item;
            auto a = like.blank(), b = like.blank();
            auto ra = a.call(limited);
            Exact rest(bytes.data() + at, bytes.size() - at);
            std::span<const std::byte> s{reinterpret_cast<const std::byte *>(rest.p), rest.n};
            auto other = C::in(s, zpp::bits::alloc_limit<4096>{});
            auto rb = b.call(other);
            trace += " any" + std::to_string(like.v.index()) + "@" + std::to_string(at);
            REQUIRE(ra == rb, "at %zu: %s, %s from the same bytes at the start of a buffer [%s]", at, code_name(ra), code_name(rb), trace.c_str());
            REQUIRE(limited.position() >= at && limited.position() <= bytes.size(), "position %zu [%s]", limited.position(), trace.c_str());
            if (ra == OK) {
                REQUIRE(a.enc(C::cfg) == b.enc(C::cfg), "other value than from the same bytes at the start of a buffer [%s]", trace.c_str());
                REQUIRE(limited.position() - at == other.position(), "%zu bytes consumed, %zu at the start of a buffer [%s]", limited.position() - at, other.position(), trace.c_str());
            }
            partition(limited, base, bytes.size(), limited.position(), trace);
            ctx.label("anywhere");
            break;
        }
        default: { // a failing read: the archive stays usable
            in.reset(bytes.size() - (bytes.size() ? 1 : 0));
            std::uint64_t x = 0;
            std::errc r = in(x);
            REQUIRE(r == std::errc::result_out_of_range, "8 bytes from the last one: %s", code_name(r));
            REQUIRE(in.position() <= bytes.size(), "position %zu of %zu", in.position(), bytes.size());
            pos = ctx.src.below(bytes.size() + 1);
            in.reset(pos);
            trace += " fail,reset(" + std::to_string(pos) + ")";
            ++moves;
        }
        }
        partition(in, base, bytes.size(), pos, trace);
        REQUIRE(equal_bytes(base, bytes.data(), bytes.size()), "the data changed [%s]", trace.c_str());
    }
    if (reads > 1 && moves) ctx.nontrivial();
    if (ctx.sampling()) ctx.sample("%s: %zu items, %zu bytes:%.400s", C::name, placed.size(), bytes.size(), trace.c_str());
}

// Reading and writing archives over the same growing data.
template <typename C>
void pair(eng::Ctx & ctx, auto && data, auto & in, auto & out, const char * kind)
{
    std::string trace = kind;
    std::vector<Placed> placed;
    Bytes bytes;
    std::size_t rpos = 0, wpos = 0;
    unsigned reads = 0, writes = 0;
    auto steps = 2 + ctx.src.small(20);
    for (std::size_t i = 0; i < steps; ++i) {
        switch (ctx.src.below(6)) {
        case 0: case 1: {
            model::G g{ctx.src};
            g.big = false;
            g.budget = 40;
            g.limit(200);
            auto item = Item::generate(g);
            auto e = item.enc(C::cfg);
            trace += " write" + std::to_string(item.v.index()) + "@" + std::to_string(wpos);
            auto r = item.call(out);
            REQUIRE(r == OK, "%s [%s]", code_name(r), trace.c_str());
            std::erase_if(placed, [&](auto & p) { return p.at < wpos + e.size() && wpos < p.at + p.size; });
            if (e.size()) placed.push_back({wpos, e.size(), std::move(item)});
            if (bytes.size() < wpos + e.size()) bytes.resize(wpos + e.size());
            std::copy(e.begin(), e.end(), bytes.begin() + wpos);
            wpos += e.size();
            ++writes;
            break;
        }
        case 2: case 3: case 4: {
            if (placed.empty()) break;
            std::size_t k = 0;
            while (k < placed.size() && placed[k].at != rpos) ++k;
            if (k == placed.size()) {
                k = ctx.src.below(placed.size());
                if (ctx.src.flip()) in.position() = placed[k].at; else in.reset(placed[k].at);
            }
            auto & p = placed[k];
            auto t = p.item.blank();
            trace += " read" + std::to_string(p.item.v.index()) + "@" + std::to_string(p.at);
            auto r = t.call(in);
            REQUIRE(r == OK, "%s [%s]", code_name(r), trace.c_str());
            REQUIRE(t.eq(p.item), "the item at %zu differs [%s]", p.at, trace.c_str());
            rpos = p.at + p.size;
            ++reads;
            break;
        }
        default:
            if (ctx.src.flip()) { wpos = ctx.src.below(bytes.size() + 1); out.reset(wpos); trace += " w=" + std::to_string(wpos); }
            else { rpos = ctx.src.below(bytes.size() + 1); in.reset(rpos); trace += " r=" + std::to_string(rpos); }
        }
        REQUIRE(out.position() == wpos, "output position %zu, expected %zu [%s]", out.position(), wpos, trace.c_str());
        REQUIRE(data.size() >= bytes.size(), "%zu bytes of data, expected %zu [%s]", data.size(), bytes.size(), trace.c_str());
        REQUIRE(equal_bytes(data.data(), bytes.data(), bytes.size()), "data is %s, expected %s [%s]", hex(data.data(), bytes.size()).c_str(), hex(bytes).c_str(), trace.c_str());
        partition(in, data.data(), data.size(), rpos, trace);
    }
    if (reads && writes > 1) ctx.nontrivial();
    ctx.label(kind);
    if (ctx.sampling()) ctx.sample("%s: %.400s", C::name, trace.c_str());
}
template <typename C>
void both(eng::Ctx & ctx, const void *)
{
    switch (ctx.src.below(5)) {
    case 0: { auto [data, in, out] = C::data_in_out(); pair<C>(ctx, data, in, out, "data_in_out"); break; }
    case 1: { std::vector<std::byte> v; auto [in, out] = C::in_out(v); pair<C>(ctx, v, in, out, "in_out(vector)"); break; }
    case 2: { std::string v; auto [in, out] = C::in_out(v); pair<C>(ctx, v, in, out, "in_out(string)"); break; }
    case 3: {
        std::vector<unsigned char> v;
        auto in = C::in(v);
        auto out = C::out(v);
        pair<C>(ctx, v, in, out, "in and out");
        break;
    }
    default: {
        std::vector<char> mem(20000);
        std::span<char> s{mem};
        auto [in, out] = C::in_out(s);
        pair<C>(ctx, s, in, out, "in_out(span)");
    }
    }
}

struct vector_holder { std::vector<std::byte> v; vector_holder(const Bytes & b) : v((const std::byte *)b.data(), (const std::byte *)b.data() + b.size()) {} auto & view() { return v; } const void * data() { return v.data(); } };
struct const_vector_holder { const std::vector<unsigned char> v; const_vector_holder(const Bytes & b) : v(b) {} auto & view() { return v; } const void * data() { return v.data(); } };
struct string_holder { std::string v; string_holder(const Bytes & b) : v(b.begin(), b.end()) {} auto & view() { return v; } const void * data() { return v.data(); } };
struct view_holder { std::vector<char> v; view_holder(const Bytes & b) : v(b.begin(), b.end()) {} std::string_view s; auto & view() { s = {v.data(), v.size()}; return s; } const void * data() { return v.data(); } };
template <typename B> struct span_holder { Exact m; std::span<B> s; span_holder(const Bytes & b) : m(b) {} auto & view() { s = {reinterpret_cast<B *>(m.p), m.n}; return s; } const void * data() { return m.p; } };
} // namespace c26
#define C26_CONFIG(NAME, HOLDER, SWAP, SIZE, ...)                                                  \
    struct NAME                                                                                    \
    {                                                                                              \
        using holder = c26::HOLDER;                                                                \
        static constexpr model::Cfg cfg{SWAP, SIZE};                                               \
        static constexpr const char * name = #NAME;                                                \
        static auto in(auto & b, auto... o) { return zpp::bits::in{b __VA_OPT__(,) __VA_ARGS__, std::move(o)...}; }   \
        static auto out(auto & b, auto... o) { return zpp::bits::out{b __VA_OPT__(,) __VA_ARGS__, std::move(o)...}; } \
        static auto in_out(auto & b) { return zpp::bits::in_out(b __VA_OPT__(,) __VA_ARGS__); }    \
        static auto data_in_out() { return zpp::bits::data_in_out(__VA_ARGS__); }                  \
    };                                                                                             \
    static eng::Registrar r1_##NAME{"reads_" #NAME, &c26::history<NAME>};                          \
    static eng::Registrar r2_##NAME{"pair_" #NAME, &c26::both<NAME>};
using namespace zpp::bits::options;
namespace e = zpp::bits::endian;
