// C29: exceptions from memory exhaustion and from user code pass through, and nothing is lost or broken by them.
#include "common.hpp"
using ops::Fault;

static std::size_t choose(eng::Ctx & ctx, std::size_t requests)
{
    if (!requests) return 0;
    // the first and the last ones more often
    switch (ctx.src.below(4)) {
    case 0: return 1 + ctx.src.below(requests < 4 ? requests : 4);
    case 1: return requests - ctx.src.below(requests < 4 ? requests : 4);
    default: return 1 + ctx.src.below(requests);
    }
}

PROPERTY("memory_reading", 6)
{
    auto & o = pick_ops(ctx);
    ctx.label(o.cfg_name);
    Value v(o);
    v.gen(ctx.src);
    Bytes enc = v.enc();
    auto front = ctx.src.below(4);
    Bytes whole = random_bytes(ctx.src, front);
    whole.insert(whole.end(), enc.begin(), enc.end());
    Exact e(whole);
    std::size_t requests;
    {
        Value fresh(o);
        auto f = o.read_fault(fresh.p, e.p, e.n, front, 0);
        REQUIRE(!f.threw && f.first.code == OK && f.first.pos == e.n, "%s [%s]: %s at %zu of %zu", sh(o.type).c_str(), o.cfg_name, code_name(f.first.code), f.first.pos, e.n);
        requests = f.requests;
    }
    auto rounds = requests ? 1 + ctx.src.below(5) : 0;
    for (std::size_t i = 0; i < rounds; ++i) {
        auto at = choose(ctx, requests);
        Value target(o);
        bool used = ctx.src.flip(1, 3);
        if (used) target.gen(ctx.src);
        auto f = o.read_fault(target.p, e.p, e.n, front, at);
        REQUIRE(equal_bytes(e.p, whole.data(), e.n), "%s [%s]: the input was modified", sh(o.type).c_str(), o.cfg_name);
        if (f.threw) {
            ctx.label(used ? "used target" : "fresh target");
            REQUIRE(f.first.pos >= front && f.first.pos <= e.n, "%s [%s]: position %zu outside of [%zu, %zu] after an exception", sh(o.type).c_str(), o.cfg_name, f.first.pos, front, e.n);
            REQUIRE(f.again.code == OK && f.again.pos == e.n, "%s [%s]: reading again after an exception: %s at %zu of %zu", sh(o.type).c_str(), o.cfg_name, code_name(f.again.code), f.again.pos, e.n);
            ctx.nontrivial();
        } else {
            // an object that holds memory already may need less of it
            REQUIRE(used, "%s [%s]: request %zu of %zu failed and no exception came out", sh(o.type).c_str(), o.cfg_name, at, requests);
            REQUIRE(f.first.code == OK && f.first.pos == e.n, "%s [%s]: %s at %zu of %zu", sh(o.type).c_str(), o.cfg_name, code_name(f.first.code), f.first.pos, e.n);
        }
        REQUIRE(target.eq(v), "%s [%s]: %s differs from what was written: %s", sh(o.type).c_str(), o.cfg_name, f.threw ? "the object read after an exception" : "the object read", hex(enc).c_str());
    }
    if (ctx.sampling()) ctx.sample("%s [%s]: %zu of %zu requests failed in turn while reading %s", sh(o.type, 160).c_str(), o.cfg_name, rounds, requests, hex(enc, 40).c_str());
}

PROPERTY("memory_writing", 4)
{
    auto & o = pick_ops(ctx);
    ctx.label(o.cfg_name);
    Value v(o);
    v.gen(ctx.src);
    Bytes enc = v.enc();
    auto held = ctx.src.below(3) ? 0 : ctx.src.below(40);
    Bytes initial = random_bytes(ctx.src, held);
    auto pos = ctx.src.below(held + 1);
    bool ordered = o.flags & ops::F_ORDERED;
    std::size_t requests;
    {
        Bytes buf = initial;
        auto f = o.write_fault(v.p, buf, pos, 0);
        REQUIRE(!f.threw && f.first.code == OK && f.first.pos == pos + enc.size(), "%s [%s]: %s at %zu", sh(o.type).c_str(), o.cfg_name, code_name(f.first.code), f.first.pos);
        requests = f.requests;
    }
    auto rounds = requests ? 1 + ctx.src.below(5) : 0;
    for (std::size_t i = 0; i < rounds; ++i) {
        auto at = choose(ctx, requests);
        Bytes buf = initial;
        auto f = o.write_fault(v.p, buf, pos, at);
        REQUIRE(f.threw, "%s [%s]: request %zu of %zu failed and no exception came out", sh(o.type).c_str(), o.cfg_name, at, requests);
        ctx.nontrivial();
        REQUIRE(f.first.pos >= pos && f.first.pos <= f.size, "%s [%s]: position %zu outside of [%zu, %zu] after an exception", sh(o.type).c_str(), o.cfg_name, f.first.pos, pos, f.size);
        REQUIRE(f.size >= held, "%s [%s]: the buffer shrank from %zu to %zu bytes in a call that threw", sh(o.type).c_str(), o.cfg_name, std::size_t(held), f.size);
        REQUIRE(equal_bytes(f.held.data(), initial.data(), pos), "%s [%s]: bytes in front of the position changed", sh(o.type).c_str(), o.cfg_name);
        if (ordered && !(o.flags & ops::F_MESSAGE)) {
            REQUIRE(equal_bytes(f.held.data() + pos, enc.data(), f.first.pos - pos), "%s [%s]: what was written before the exception is %s, expected the start of %s", sh(o.type).c_str(), o.cfg_name,
                    hex(f.held.data() + pos, f.first.pos - pos).c_str(), hex(enc).c_str());
        }
        REQUIRE(f.again.code == OK && f.again.pos == pos + enc.size() && f.again.pos <= buf.size(), "%s [%s]: writing again after an exception: %s at %zu of %zu", sh(o.type).c_str(), o.cfg_name, code_name(f.again.code),
                f.again.pos, buf.size());
        REQUIRE(equal_bytes(buf.data(), initial.data(), pos), "%s [%s]: bytes in front of the position changed when writing again", sh(o.type).c_str(), o.cfg_name);
        if (ordered) REQUIRE(equal_bytes(buf.data() + pos, enc.data(), enc.size()), "%s [%s]: written again: %s, expected %s", sh(o.type).c_str(), o.cfg_name, hex(buf.data() + pos, enc.size()).c_str(), hex(enc).c_str());
    }
    if (ctx.sampling()) ctx.sample("%s [%s]: %zu of %zu requests failed in turn while writing %s", sh(o.type, 160).c_str(), o.cfg_name, rounds, requests, hex(enc, 40).c_str());
}
