// C06: fixed capacity output.
#include "common.hpp"

PROPERTY("capacity", 3)
{
    auto & o = pick_ops(ctx);
    Value v(o);
    v.gen(ctx.src);
    Bytes want = v.enc();
    auto lead = ctx.src.small(9);
    std::size_t cap;
    switch (ctx.src.below(5)) {
    case 0: cap = want.size(); break;
    case 1: cap = want.size() ? want.size() - 1 : 0; break;
    case 2: cap = ctx.src.below(want.size() + 1); break;
    case 3: cap = want.size() - std::min(want.size(), ctx.src.small(10)); break;
    default: cap = want.size() + 1 + ctx.src.small(20); break;
    }
    Bytes stale = random_bytes(ctx.src, lead + cap);
    Exact m(stale);
    auto r = o.write_fixed(v.p, m.p, m.n, lead);
    bool fits = cap >= want.size();
    ctx.label(fits ? cap == want.size() ? "exact fit" : "room left" : "too small");
    REQUIRE((r.code == OK) == fits, "%s [%s]: %zu bytes into %zu: %s", sh(o.type).c_str(), o.cfg_name, want.size(), cap, code_name(r.code));
    REQUIRE(fits || r.code == std::errc::result_out_of_range, "%s [%s]: %s when full", sh(o.type).c_str(), o.cfg_name, code_name(r.code));
    REQUIRE(r.pos >= lead && r.pos <= m.n, "position %zu outside of [%zu,%zu]", r.pos, lead, m.n);
    REQUIRE(equal_bytes(m.p, stale.data(), lead), "bytes before the position changed");
    if (fits) {
        REQUIRE(r.pos == lead + want.size(), "position %zu after writing %zu bytes at %zu", r.pos, want.size(), lead);
        REQUIRE(equal_bytes(m.p + r.pos, stale.data() + r.pos, m.n - r.pos), "%s [%s]: bytes after the written ones changed", sh(o.type).c_str(), o.cfg_name);
    }
    // (a message that did not fit never got its length)
    if (o.flags & ops::F_ORDERED && (fits || !(o.flags & ops::F_MESSAGE)))
        REQUIRE(equal_bytes(m.p + lead, want.data(), r.pos - lead), "%s [%s]: what did fit is not a prefix of the encoding %s", sh(o.type).c_str(), o.cfg_name, hex(want).c_str());
    if (want.size() >= 2) ctx.nontrivial();
    if (ctx.sampling()) ctx.sample("%s [%s] %zu bytes into %zu: %s at %zu", sh(o.type, 160).c_str(), o.cfg_name, want.size(), cap, code_name(r.code), r.pos - lead);
}

// Messages near the lengths where a variable size prefix grows: the message is moved ahead within the buffer.
#include "pbtypes.hpp"
namespace
{
template <typename... O>
void message_capacity(eng::Ctx & ctx, model::Cfg cfg, O... options)
{
    auto & s = ctx.src;
    std::vector<pm::text> v(1 + s.below(2));
    for (auto & m : v) {
        auto edge = s.pick<std::size_t>({0, 127, 127, 128, 16383, 16383, 16384, 65535});
        auto delta = s.below(12);
        auto n = edge + 4 > delta ? edge + 4 - delta : 0;
        if (edge > 65000 && cfg.size == model::SP_2) n = 60000;
        m.s.assign(n, char('a' + s.below(26)));
        m.b.resize(s.small(3), std::byte(s.below(256)));
    }
    model::Enc e;
    e.cfg = cfg;
    model::M<std::vector<pm::text>>::enc(v, e);
    auto & want = e.out;
    auto lead = s.small(5);
    auto near = s.below(8);
    auto cap = near < 4 ? want.size() - std::min<std::size_t>(want.size(), near) : near < 6 ? want.size() + s.small(3) : s.below(want.size() + 1);
    Bytes stale = random_bytes(s, std::min<std::size_t>(lead + cap, 64));
    stale.resize(lead + cap, 0x5a);
    Exact m(stale);
    std::span<std::byte> view{reinterpret_cast<std::byte *>(m.p), m.n};
    zpp::bits::out out{view, options...};
    out.reset(lead);
    std::errc r = out(v);
    bool fits = cap >= want.size();
    ctx.label(fits ? cap == want.size() ? "message: exact fit" : "message: room left" : "message: too small");
    REQUIRE((r == OK) == fits && (fits || r == std::errc::result_out_of_range), "messages of %zu bytes into %zu: %s", want.size(), cap, code_name(r));
    REQUIRE(equal_bytes(m.p, stale.data(), lead), "bytes before the position changed");
    if (fits) {
        REQUIRE(out.position() == lead + want.size(), "position %zu after writing %zu bytes at %zu", out.position(), want.size(), lead);
        REQUIRE(equal_bytes(m.p + lead, want.data(), want.size()), "messages of %zu bytes are not encoded as documented", want.size());
        REQUIRE(equal_bytes(m.p + lead + want.size(), stale.data() + lead + want.size(), cap - want.size()), "bytes after the written ones changed");
    }
    ctx.nontrivial();
    if (ctx.sampling()) ctx.sample("%zu messages, %zu bytes into %zu: %s", v.size(), want.size(), cap, code_name(r));
}
} // namespace
PROPERTY("message_capacity", 1)
{
    switch (ctx.src.below(4)) {
    case 0: return message_capacity(ctx, {}, zpp::bits::no_fit_size{});
    case 1: return message_capacity(ctx, {true, model::SP_VARINT}, zpp::bits::size_varint{}, zpp::bits::endian::swapped{});
    case 2: return message_capacity(ctx, {false, model::SP_2}, zpp::bits::size2b{});
    default: return message_capacity(ctx, {false, model::SP_VARINT}, zpp::bits::size_varint{});
    }
}
