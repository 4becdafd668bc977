// C04: every strict prefix of a valid message is result_out_of_range.
#include "common.hpp"

PROPERTY("prefix", 1)
{
    auto & o = pick_ops(ctx);
    Value v(o);
    v.gen(ctx.src);
    Bytes buf;
    auto w = o.write_grow(v.p, buf, 0);
    REQUIRE(w.code == OK && w.pos <= buf.size(), "serializing %s [%s]: %s", sh(o.type).c_str(), o.cfg_name, code_name(w.code));
    buf.resize(w.pos);
    auto lead = ctx.src.small(5);
    Bytes data = random_bytes(ctx.src, lead);
    data.insert(data.end(), buf.begin(), buf.end());
    auto n = buf.size();
    std::vector<std::size_t> cuts;
    if (n <= 40) {
        for (std::size_t i = 0; i < n; ++i) cuts.push_back(i);
        ctx.label("all prefixes");
    } else {
        for (std::size_t i = 0; i < 10; ++i) cuts.push_back(i);
        for (std::size_t i = 1; i <= 6; ++i) cuts.push_back(n - i);
        for (int i = 0; i < 8; ++i) cuts.push_back(ctx.src.below(n));
        ctx.label("sampled prefixes");
    }
    for (auto c : cuts) {
        Exact e(data.data(), lead + c);
        Value t(o);
        auto r = o.read(t.p, e.p, e.n, lead);
        REQUIRE(r.code == std::errc::result_out_of_range, "%s [%s]: prefix of %zu of %zu bytes gives %s: %s", sh(o.type).c_str(), o.cfg_name, c, n,
                code_name(r.code), hex(buf).c_str());
        REQUIRE(r.pos >= lead && r.pos <= e.n, "position %zu after failure, data of %zu bytes from %zu", r.pos, e.n, lead);
    }
    // the whole message is accepted
    {
        Exact e(data);
        Value t(o);
        auto r = o.read(t.p, e.p, e.n, lead);
        REQUIRE(r.code == OK && r.pos == e.n, "%s [%s]: the whole message gives %s", sh(o.type).c_str(), o.cfg_name, code_name(r.code));
    }
    if (n >= 2) ctx.nontrivial();
    if (ctx.sampling()) ctx.sample("%s [%s] %zu prefixes of %s", sh(o.type, 160).c_str(), o.cfg_name, cuts.size(), hex(buf, 40).c_str());
}
