// C03: byte order options reverse exactly the multi-byte scalars.
// Types are registered with configurations of both byte orders and equal size policy.
#include "common.hpp"
#include <algorithm>

PROPERTY("byte_order", 1)
{
    std::size_t n;
    auto all = ops::all(n);
    auto & a = *all[ctx.src.below(n)];
    // a partner: the same type and size policy in another configuration
    std::vector<const Ops *> partners;
    for (std::size_t i = 0; i < n; ++i)
        if (all[i] != &a && !std::strcmp(all[i]->type, a.type) && all[i]->cfg.size == a.cfg.size) partners.push_back(all[i]);
    if (partners.empty()) return;
    auto & b = *partners[ctx.src.below(partners.size())];
    Value v(a);
    v.gen(ctx.src);
    Bytes x, y;
    auto rx = a.write_grow(v.p, x, 0);
    auto ry = b.write_grow(v.p, y, 0); // the same type: the object is interchangeable
    REQUIRE(rx.code == OK && ry.code == OK, "%s: %s with %s, %s with %s", sh(a.type).c_str(), code_name(rx.code), a.cfg_name, code_name(ry.code), b.cfg_name);
    REQUIRE(rx.pos == ry.pos, "%s: %zu bytes with %s, %zu with %s", sh(a.type).c_str(), rx.pos, a.cfg_name, ry.pos, b.cfg_name);
    x.resize(rx.pos);
    y.resize(ry.pos);
    bool rev = a.cfg.swap != b.cfg.swap;
    ctx.label(rev ? "opposite orders" : "equal orders");
    // the positions of multi-byte scalars, from the reference encoder
    model::Enc e;
    e.cfg = a.cfg;
    std::vector<std::pair<std::size_t, std::size_t>> scalars;
    e.scalars = &scalars;
    a.enc(v.p, e);
    REQUIRE(e.out.size() == x.size(), "%s [%s]: %zu bytes, documented layout has %zu", sh(a.type).c_str(), a.cfg_name, x.size(), e.out.size());
    Bytes want = x;
    if (rev)
        for (auto [at, w] : scalars) std::reverse(want.begin() + at, want.begin() + at + w);
    REQUIRE(want == y, "%s: %s gives %s and %s gives %s", sh(a.type).c_str(), a.cfg_name, hex(x).c_str(), b.cfg_name, hex(y).c_str());
    if (a.flags & ops::F_ORDERED) REQUIRE(e.out == x, "%s [%s]: %s, documented layout %s", sh(a.type).c_str(), a.cfg_name, hex(x).c_str(), hex(e.out).c_str());
    Value back(b);
    Exact d(y);
    auto rr = b.read(back.p, d.p, d.n, 0);
    REQUIRE(rr.code == OK && rr.pos == d.n, "%s [%s]: reading back: %s", sh(b.type).c_str(), b.cfg_name, code_name(rr.code));
    REQUIRE(b.eq(back.p, v.p), "%s [%s]: another value read back from %s", sh(b.type).c_str(), b.cfg_name, hex(y).c_str());
    if (rev && !scalars.empty()) ctx.nontrivial();
    if (ctx.sampling()) ctx.sample("%s %s=%s %s=%s", sh(a.type, 160).c_str(), a.cfg_name, hex(x, 30).c_str(), b.cfg_name, hex(y, 30).c_str());
}
