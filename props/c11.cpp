// C11: the result of deserialization does not depend on what the target held.
#include "common.hpp"

PROPERTY("dirty_target", 1)
{
    auto & o = pick_ops(ctx);
    ctx.label(o.cfg_name);
    Value v(o);
    v.gen(ctx.src);
    Bytes buf;
    auto w = o.write_grow(v.p, buf, 0);
    REQUIRE(w.code == OK && w.pos <= buf.size(), "serializing %s [%s]: %s", sh(o.type).c_str(), o.cfg_name, code_name(w.code));
    Exact e(buf.data(), w.pos);
    Value fresh(o), dirty(o);
    auto r0 = o.read(fresh.p, e.p, e.n, 0);
    REQUIRE(r0.code == OK && r0.pos == e.n, "%s [%s]: fresh target: %s", sh(o.type).c_str(), o.cfg_name, code_name(r0.code));
    REQUIRE(fresh.eq(v), "%s [%s]: fresh target differs from what was written", sh(o.type).c_str(), o.cfg_name);
    dirty.gen(ctx.src);
    bool differs = !dirty.eq(v);
    auto steps = 1 + ctx.src.below(2);
    for (std::size_t i = 0; i < steps; ++i) {
        auto r = o.read(dirty.p, e.p, e.n, 0);
        REQUIRE(r.code == OK && r.pos == e.n, "%s [%s]: used target: %s at %zu of %zu: %s", sh(o.type).c_str(), o.cfg_name, code_name(r.code), r.pos, e.n, hex(buf).c_str());
        REQUIRE(dirty.eq(v), "%s [%s]: previous content shows in the result for %s", sh(o.type).c_str(), o.cfg_name, hex(buf).c_str());
    }
    if (ctx.src.flip(1, 3) && e.n) {
        // after a failed attempt, too
        Exact cut(e.p, ctx.src.below(e.n));
        Value again(o);
        again.gen(ctx.src);
        o.read(again.p, cut.p, cut.n, 0);
        auto r = o.read(again.p, e.p, e.n, 0);
        REQUIRE(r.code == OK && again.eq(v), "%s [%s]: remains of a failed attempt show in the result", sh(o.type).c_str(), o.cfg_name);
        ctx.label("after failure");
    }
    if (differs) ctx.nontrivial();
    if (ctx.sampling()) ctx.sample("%s [%s] over %s target <- %s", sh(o.type, 160).c_str(), o.cfg_name, differs ? "different" : "equal", hex(buf, 40).c_str());
}
