// C01 round trip: several values of one archive configuration after each other in one buffer.
#include "common.hpp"
#include <memory>

PROPERTY("roundtrip", 1)
{
    std::size_t n;
    auto all = ops::all(n);
    auto & first = *all[ctx.src.below(n)];
    ctx.label(first.cfg_name);
    // further values of the same configuration
    std::vector<const Ops *> chain{&first};
    auto extra = ctx.src.small(3);
    for (std::size_t i = 0; i < extra; ++i) {
        auto start = ctx.src.below(n);
        for (std::size_t k = 0; k < n; ++k) {
            auto o = all[(start + k) % n];
            if (o->cfg_name == first.cfg_name) { chain.push_back(o); break; }
        }
    }
    auto lead = ctx.src.small(9);
    Bytes buf = random_bytes(ctx.src, lead + ctx.src.small(40));
    auto pos = lead;
    std::vector<std::unique_ptr<Value>> values;
    std::vector<std::size_t> ends;
    for (auto o : chain) {
        values.push_back(std::make_unique<Value>(*o));
        values.back()->gen(ctx.src);
        auto before = buf;
        auto r = o->write_grow(values.back()->p, buf, pos);
        REQUIRE(r.code == OK, "serializing %s with %s: %s", sh(o->type).c_str(), o->cfg_name, code_name(r.code));
        REQUIRE(r.pos >= pos && r.pos <= buf.size(), "end position %zu of output, start %zu, size %zu", r.pos, pos, buf.size());
        REQUIRE(equal_bytes(buf.data(), before.data(), pos), "bytes before the position changed");
        pos = r.pos;
        ends.push_back(pos);
    }
    bool more = ctx.src.flip();
    if (more) { // whatever follows has no influence
        auto t = random_bytes(ctx.src, ctx.src.small(30));
        buf.resize(pos);
        buf.insert(buf.end(), t.begin(), t.end());
    } else {
        buf.resize(pos);
    }
    Exact data(buf);
    pos = lead;
    for (std::size_t i = 0; i < chain.size(); ++i) {
        auto & o = *chain[i];
        Value back(o);
        auto r = o.read(back.p, data.p, data.n, pos);
        REQUIRE(r.code == OK, "deserializing %s with %s: %s, data %s", sh(o.type).c_str(), o.cfg_name, code_name(r.code), hex(data.p + pos, ends[i] - pos).c_str());
        REQUIRE(r.pos == ends[i], "%s with %s consumed up to %zu, written up to %zu", sh(o.type).c_str(), o.cfg_name, r.pos, ends[i]);
        REQUIRE(back.eq(*values[i]), "%s with %s: value changed, data %s", sh(o.type).c_str(), o.cfg_name, hex(data.p + pos, ends[i] - pos).c_str());
        pos = r.pos;
    }
    REQUIRE(equal_bytes(data.p, buf.data(), buf.size()), "reading changed the data");
    if (ends.back() - lead >= 2) ctx.nontrivial();
    if (ctx.sampling()) ctx.sample("%s [%s] x%zu -> %s", sh(first.type, 160).c_str(), first.cfg_name, chain.size(), hex(data.p + lead, ends.back() - lead, 40).c_str());
}
