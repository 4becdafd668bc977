// C02: bytes equal the reference encoder's, whatever the buffer held before.
#include "common.hpp"

PROPERTY("layout", 1)
{
    auto & o = pick_ops(ctx);
    ctx.label(o.cfg_name);
    Value v(o);
    v.gen(ctx.src);
    Bytes want = v.enc();
    auto lead = ctx.src.small(9);
    // stale contents: random, all ones or all zeros, shorter or longer than what is written
    std::size_t len = lead;
    switch (ctx.src.below(4)) {
    case 0: break;
    case 1: len += want.size(); break;
    case 2: len += ctx.src.below(want.size() + 1); break;
    default: len += want.size() + ctx.src.small(40); break;
    }
    Bytes stale = random_bytes(ctx.src, len);
    auto fill = ctx.src.below(3);
    if (fill) for (auto & b : stale) b = fill == 1 ? 0xff : 0;
    bool fixed = len >= lead + want.size() && ctx.src.flip();
    Bytes got;
    Res r;
    if (fixed) {
        Exact m(stale);
        r = o.write_fixed(v.p, m.p, m.n, lead);
        got.assign(m.p, m.p + m.n);
    } else {
        got = stale;
        r = o.write_grow(v.p, got, lead);
    }
    REQUIRE(r.code == OK, "%s [%s]: %s", sh(o.type).c_str(), o.cfg_name, code_name(r.code));
    REQUIRE(r.pos == lead + want.size(), "%s [%s]: %zu bytes written, documented layout has %zu: %s", sh(o.type).c_str(), o.cfg_name,
            r.pos - lead, want.size(), hex(want).c_str());
    REQUIRE(got.size() >= r.pos, "buffer of %zu bytes, position %zu", got.size(), r.pos);
    if (o.flags & ops::F_ORDERED) {
        ctx.label("ordered");
        for (std::size_t i = 0; i < want.size(); ++i)
            REQUIRE(got[lead + i] == want[i], "%s [%s]: byte %zu is %02x, documented layout has %02x: %s", sh(o.type).c_str(), o.cfg_name, i,
                    got[lead + i], want[i], hex(want).c_str());
    }
    REQUIRE(equal_bytes(got.data(), stale.data(), lead), "bytes before the position changed");
    if (len && want.size() >= 2) { ctx.nontrivial(); if (len > lead) ctx.label("over stale bytes"); }
    if (ctx.sampling()) ctx.sample("%s [%s] over %zu stale bytes -> %s", sh(o.type, 160).c_str(), o.cfg_name, len - lead, hex(want, 40).c_str());
}
