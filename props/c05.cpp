// C05: arbitrary bytes are decoded or rejected cleanly (with an allocation limit).
#include "common.hpp"
#include "configs.hpp"
#include <optional>
#include <span>
#include <string_view>

namespace
{
Bytes hostile_bytes(eng::Ctx & ctx, const Ops & o)
{
    auto & s = ctx.src;
    auto kind = s.below(4);
    if (kind == 0) {
        ctx.label("random bytes");
        Bytes b(s.small(60));
        auto mode = s.below(3);
        for (auto & x : b) x = mode == 0 ? (unsigned char)s.below(256) : mode == 1 ? (unsigned char)s.below(4) : (unsigned char)s.interesting(8);
        return b;
    }
    Value v(o);
    model::G g{s};
    g.big = false;
    v.gen(g);
    Bytes b = v.enc();
    if (kind == 1 && b.size()) { ctx.label("truncated"); b.resize(s.below(b.size() + 1)); }
    auto k = s.below(4);
    for (std::size_t i = 0; i < k + 1 && b.size(); ++i) {
        auto at = s.below(b.size());
        switch (s.below(7)) {
        case 0: b[at] = (unsigned char)s.below(256); break;
        case 1: b[at] ^= (unsigned char)(1u << s.below(8)); break;
        case 2: b.insert(b.begin() + at, (unsigned char)s.interesting(8)); break;
        case 3: b.erase(b.begin() + at, b.begin() + at + std::min<std::size_t>(1 + s.small(8), b.size() - at)); break;
        case 4: b[at] = 0xff; break;
        case 5: { // an announced size: a little integer
            auto w = 1u << s.below(4);
            auto x = s.interesting(8 * w);
            for (unsigned j = 0; j < w && at + j < b.size(); ++j) b[at + j] = (unsigned char)(x >> (o.cfg.swap ? 8 * (w - 1 - j) : 8 * j));
            break;
        }
        default: b.resize(b.size() + s.small(10), (unsigned char)s.below(256)); break;
        }
    }
    ctx.label("mutated");
    return b;
}
} // namespace

PROPERTY("hostile", 9)
{
    auto & o = pick_ops(ctx);
    if (!(o.flags & ops::F_HOSTILE)) return;
    ctx.label(o.cfg_name);
    Bytes b = hostile_bytes(ctx, o);
    Exact e(b);
    Value v(o);
    bool message = o.flags & ops::F_MESSAGE; // fields that are absent keep what they were
    bool dirty = ctx.src.flip(1, 3);
    if (dirty && !message) { model::G g{ctx.src}; g.big = false; g.budget = 30; v.gen(g); }
    auto r = o.read_limited(v.p, e.p, e.n, 0);
    ctx.label(code_name(r.code));
    REQUIRE(r.pos <= e.n, "%s [%s]: position %zu of %zu bytes: %s", sh(o.type).c_str(), o.cfg_name, r.pos, e.n, hex(b).c_str());
    REQUIRE(r.code == OK || r.code == std::errc::result_out_of_range || r.code == std::errc::message_size ||
                r.code == std::errc::value_too_large || r.code == std::errc::bad_message || (message && r.code == std::errc::protocol_error),
            "%s [%s]: undocumented outcome %d for %s", sh(o.type).c_str(), o.cfg_name, (int)r.code, hex(b).c_str());
    REQUIRE(equal_bytes(e.p, b.data(), b.size()), "decoding changed the data");
    if (r.code == OK) {
        // what was accepted re-serializes and decodes again to an equal value
        if (o.max_len < 65536) ctx.label("small size type");
        Bytes again;
        auto w = o.write_grow(v.p, again, 0);
        if (message && w.code == std::errc::message_size && o.max_len < 65536) return; // written with all its fields, it may exceed the size type
        REQUIRE(w.code == OK, "%s [%s]: accepted value does not serialize: %s", sh(o.type).c_str(), o.cfg_name, code_name(w.code));
        Exact a(again.data(), w.pos);
        Value v2(o);
        auto r2 = o.read_limited(v2.p, a.p, a.n, 0);
        REQUIRE(r2.code == OK && r2.pos == a.n, "%s [%s]: re-encoding of an accepted value gives %s: %s", sh(o.type).c_str(), o.cfg_name, code_name(r2.code), hex(b).c_str());
        REQUIRE(v2.eq(v), "%s [%s]: re-encoding of an accepted value decodes differently: %s", sh(o.type).c_str(), o.cfg_name, hex(b).c_str());
        // nothing beyond the consumed bytes mattered
        Exact cut(b.data(), r.pos);
        Value v3(o);
        auto r3 = o.read_limited(v3.p, cut.p, cut.n, 0);
        REQUIRE(r3.code == OK && r3.pos == r.pos && v3.eq(v), "%s [%s]: the consumed bytes alone decode differently (%s): %s", sh(o.type).c_str(), o.cfg_name, code_name(r3.code), hex(b).c_str());
    }
    if (b.size() >= 2) ctx.nontrivial();
    if (ctx.sampling()) ctx.sample("%s [%s] %s -> %s at %zu", sh(o.type, 160).c_str(), o.cfg_name, hex(b, 40).c_str(), code_name(r.code), r.pos);
}

// Messages of integers, views, strings, optional views and vectors of views, read item by item from any
// bytes: every code, every position and every view is what a parser of the documented format finds.
namespace
{
template <typename C> struct views
{
    using byte = typename C::byte;
    using span = std::span<const byte>;
    using view = std::conditional_t<std::is_same_v<byte, char>, std::string_view, span>;
    static constexpr std::size_t limit = 4096;
    static constexpr auto overlong = std::errc::owner_dead;
    struct Pair { std::uint16_t a{}; view v; };

    struct Parser
    {
        const Bytes & b;
        std::size_t at = 0;
        std::uint64_t integer(std::size_t w, bool swap)
        {
            if (b.size() - at < w) throw std::errc::result_out_of_range;
            std::uint64_t x = 0;
            for (std::size_t j = 0; j < w; ++j) x |= std::uint64_t(b[at + j]) << (swap ? 8 * (w - 1 - j) : 8 * j);
            at += w;
            return x;
        }
        std::uint64_t size(int policy)
        {
            if (policy != model::SP_VARINT) return integer(policy == model::SP_1 ? 1 : policy == model::SP_2 ? 2 : policy == model::SP_4 ? 4 : 8, C::cfg.swap);
            std::uint64_t x = 0;
            for (unsigned k = 0; k < 10; ++k) {
                if (at == b.size()) throw std::errc::result_out_of_range;
                auto c = b[at++];
                if (k == 9 && c > 1 && c < 128) throw overlong; // an integer of more than 64 bits
                x |= std::uint64_t(c & 127) << (7 * k);
                if (c < 128) return x;
            }
            throw std::errc::value_too_large;
        }
        std::pair<std::size_t, std::size_t> bytes(int policy)
        {
            auto n = size(policy);
            if (n > b.size() - at) throw std::errc::result_out_of_range;
            auto from = at;
            at += n;
            return {from, n};
        }
    };
    static Bytes generate(eng::Ctx & ctx, const std::vector<unsigned> & kinds)
    {
        auto & s = ctx.src;
        model::Enc e;
        e.cfg = C::cfg;
        auto length = [&](int policy, std::size_t left) {
            std::uint64_t n = left;
            if (s.flip(1, 3)) switch (s.below(4)) {
            case 0: n = s.interesting(64); break;
            case 1: n = ~std::uint64_t{} - s.below(80); break;
            case 2: n = (std::uint64_t{1} << (8 * (1 + s.below(7)))) + s.below(5) - s.below(5); break;
            default: n = left + s.below(4);
            }
            if (policy == model::SP_1) n &= 255;
            if (policy == model::SP_2) n &= 0xffff;
            if (policy == model::SP_4) n &= 0xffffffff;
            e.size(n, policy);
        };
        auto blob = [&](int policy) {
            auto b = random_bytes(s, s.small(12));
            length(policy, b.size());
            e.raw(b.data(), b.size());
        };
        for (auto k : kinds) switch (k) {
        case 0: case 6: { auto r = random_bytes(s, 4); e.raw(r.data(), 4); break; }
        case 1: case 2: blob(C::cfg.size); break;
        case 3: { auto r = random_bytes(s, 2); e.raw(r.data(), 2); blob(C::cfg.size); break; }
        case 4: { bool has = s.flip(); e.byte(has); if (has) blob(C::cfg.size); break; }
        case 5: blob(model::SP_8); break;
        default: { auto n = s.below(4); length(C::cfg.size, n); for (; n--;) blob(C::cfg.size); }
        }
        auto b = std::move(e.out);
        if (s.flip(1, 4)) b.resize(s.below(b.size() + 1));
        return b;
    }
    static void run(eng::Ctx & ctx)
    {
        std::vector<unsigned> kinds(1 + ctx.src.below(5));
        for (auto & k : kinds) k = ctx.src.below(8);
        auto b = generate(ctx, kinds);
        Exact mem(b);
        std::span<const byte> data{reinterpret_cast<const byte *>(mem.p), mem.n};
        auto in = C::in(data, zpp::bits::alloc_limit<limit>{});
        Parser p{b};
        std::string trace;
        auto same = [&](const auto & v, std::pair<std::size_t, std::size_t> w) {
            REQUIRE(v.size() == w.second && (!w.second || static_cast<const void *>(v.data()) == mem.p + w.first),
                "%s: a view of %zu bytes, the data has %zu at %zu: %s [%s]", C::name, v.size(), w.second, w.first, hex(b).c_str(), trace.c_str());
        };
        for (auto k : kinds) {
            trace += " " + std::to_string(k);
            std::errc r{}, want{};
            bool either = false; // too much memory for data that is not there
            auto call = [&](auto && item) { r = in(item); return r == OK; };
            auto expect = [&](auto && f) { try { f(); } catch (std::errc e) { want = e; } };
            constexpr auto size = C::cfg.size;
            switch (k) {
            case 0: { std::uint32_t x{}; std::uint64_t y{}; expect([&] { y = p.integer(4, C::cfg.swap); }); if (call(x)) REQUIRE(x == y || want != OK, "integer"); break; }
            case 1: { view v{}; std::pair<std::size_t, std::size_t> w; expect([&] { w = p.bytes(size); }); if (call(v) && want == OK) same(v, w); break; }
            case 2: { span v{}; std::pair<std::size_t, std::size_t> w; expect([&] { w = p.bytes(size); }); if (call(v) && want == OK) same(v, w); break; }
            case 3: { Pair v{}; std::pair<std::size_t, std::size_t> w; expect([&] { p.integer(2, false); w = p.bytes(size); }); if (call(v) && want == OK) same(v.v, w); break; }
            case 4: {
                std::optional<view> v;
                std::pair<std::size_t, std::size_t> w;
                bool has = false;
                expect([&] { has = p.integer(1, false); if (has) w = p.bytes(size); });
                if (call(v) && want == OK) { REQUIRE(v.has_value() == has, "optional"); if (has) same(*v, w); }
                break;
            }
            case 5: { zpp::bits::sized_t<span, std::uint64_t> v{}; std::pair<std::size_t, std::size_t> w; expect([&] { w = p.bytes(model::SP_8); }); if (call(v) && want == OK) same(v, w); break; }
            case 6: { std::array<byte, 4> v{}; auto from = p.at; expect([&] { p.integer(4, false); }); if (call(v) && want == OK) same(std::span{mem.p + from, 4}, {from, 4}); break; }
            default: {
                std::vector<view> v;
                std::vector<std::pair<std::size_t, std::size_t>> w;
                expect([&] {
                    auto n = p.size(size);
                    if (n > limit / sizeof(view)) { either = true; throw std::errc::message_size; }
                    for (std::uint64_t i = 0; i < n; ++i) w.push_back(p.bytes(size));
                });
                if (call(v) && want == OK) {
                    REQUIRE(v.size() == w.size(), "%s: %zu views, the data has %zu: %s", C::name, v.size(), w.size(), hex(b).c_str());
                    for (std::size_t i = 0; i < w.size(); ++i) same(v[i], w[i]);
                }
            }
            }
            if (want == overlong) break;
            REQUIRE(r == want || (either && r == std::errc::result_out_of_range), "%s: %s, a parser finds %s: %s [%s]", C::name, code_name(r), code_name(want), hex(b).c_str(), trace.c_str());
            REQUIRE(in.position() <= mem.n, "%s: position %zu of %zu: %s [%s]", C::name, in.position(), mem.n, hex(b).c_str(), trace.c_str());
            if (r != OK) { ctx.label(code_name(r)); break; }
            REQUIRE(in.position() == p.at, "%s: position %zu, a parser is at %zu: %s [%s]", C::name, in.position(), p.at, hex(b).c_str(), trace.c_str());
        }
        ctx.label("views");
        if (b.size() > 2) ctx.nontrivial();
        if (ctx.sampling()) ctx.sample("views [%s] %s:%s", C::name, hex(b, 40).c_str(), trace.c_str());
    }
};
} // namespace
PROPERTY("hostile_views", 1)
{
    using namespace cfgs;
    switch (ctx.src.below(10)) {
    case 0: return views<plain>::run(ctx);
    case 1: return views<big>::run(ctx);
    case 2: return views<s1>::run(ctx);
    case 3: return views<s2>::run(ctx);
    case 4: return views<plain_string>::run(ctx);
    case 5: return views<s8>::run(ctx);
    case 6: return views<snative>::run(ctx);
    case 7: return views<svarint>::run(ctx);
    case 8: return views<big_s8>::run(ctx);
    default: return views<big_svarint>::run(ctx);
    }
}
