// C20: any conforming encoding is decoded to the values another implementation sees.
#pragma once
#include "pb.hpp"

namespace c20
{
using namespace pb;

template <typename T, typename C, unsigned K>
void run(eng::Ctx & ctx, const void *)
{
    auto & s = ctx.src;
    constexpr bool sized = C::cfg.size != model::SP_NONE;
    T m{};
    G g{s};
    g.limit(300);
    g.budget = s.flip(1, 12) ? 800 : 60;
    gen_message(g, m);
    Encoder e;
    Bytes body;
    bool theirs = s.flip(1, 8);
    if (theirs) { // libprotobuf's own encoding
        auto plain = e.message(tree(m, g, false), 0).b;
        REQUIRE(pbo::reencode(PBM<T>::name, plain.data(), plain.size(), body), "the oracle refuses %s", hex(plain, 200).c_str());
        ctx.label("encoded by libprotobuf");
    } else {
        e.s = &s;
        body = e.message(tree(m, g, true), 0).b;
    }
    if (C::cfg.size == model::SP_1 && body.size() > 255) { body.clear(); m = T{}; }
    if (C::cfg.size == model::SP_2 && body.size() > 65535) { body.clear(); m = T{}; }
    Bytes expected, expected_used;
    REQUIRE(pbo::dump(PBM<T>::name, body.data(), body.size(), expected), "the oracle refuses %s", hex(body, 300).c_str());
    if (!e.overridden && !theirs) REQUIRE(expected == dumped(m), "the encoder and the oracle disagree on %s: %s\n %s\n %s", PBM<T>::name, hex(body, 300).c_str(), hex(expected, 300).c_str(), hex(dumped(m), 300).c_str());

    auto wire = framed(C::cfg, body);
    auto end = wire.size();
    auto after = sized ? random_bytes(s, s.small(12)) : Bytes{};
    wire.insert(wire.end(), after.begin(), after.end());
    Exact mem(wire);
    std::span<const typename C::byte> view{reinterpret_cast<const typename C::byte *>(mem.p), mem.n};
    T back{};
    std::errc r;
    std::size_t position;
    if constexpr (K % 3 == 0) {
        typename C::container data(view.data(), view.data() + view.size());
        auto in = C::in(data);
        r = in(back);
        position = in.position();
    } else if constexpr (K % 3 == 1) {
        auto in = C::in(view, zpp::bits::alloc_limit<1000000>{});
        r = in(back);
        position = in.position();
    } else {
        auto in = C::in(view);
        r = in(back);
        position = in.position();
    }
    REQUIRE(r == OK && position == end, "%s: %s at %zu of %zu: %s", PBM<T>::name, code_name(r), position, end, hex(wire, 300).c_str());
    auto seen = dumped(back);
    REQUIRE(seen == expected, "%s is decoded differently: body %s\n got %s\n wanted %s", PBM<T>::name, hex(body, 300).c_str(), hex(seen, 300).c_str(), hex(expected, 300).c_str());

    // into an object that already has values
    if (s.flip(1, 4)) {
        T used{};
        g.budget = 60;
        gen_message(g, used);
        T rest = used;
        leave_unset(rest, body.data(), body.data() + body.size());
        auto merged = Encoder{}.message(tree(rest, g, false), 0).b; // concatenation merges
        merged.insert(merged.end(), body.begin(), body.end());
        REQUIRE(pbo::dump(PBM<T>::name, merged.data(), merged.size(), expected_used), "the oracle refuses %s", hex(merged, 300).c_str());
        auto before = hex(dumped(used), 300);
        auto in = C::in(view);
        r = in(used);
        REQUIRE(r == OK, "%s into a used object: %s: %s", PBM<T>::name, code_name(r), hex(body, 300).c_str());
        seen = dumped(used);
        REQUIRE(seen == expected_used, "%s is decoded differently into a used object: body %s\n had %s\n got %s\n wanted %s", PBM<T>::name, hex(body, 300).c_str(), before.c_str(), hex(seen, 300).c_str(), hex(expected_used, 300).c_str());
        ctx.label("into a used object");
    }

    // once more behind another one, in a vector
    if constexpr (sized && K / 3 % 3 == 0) {
        if (wire.size() < 2000) {
            Enc v;
            v.cfg = C::cfg;
            v.size(2);
            v.raw(wire.data(), end);
            v.raw(wire.data(), end);
            Exact mem2(v.out);
            std::span<const typename C::byte> view2{reinterpret_cast<const typename C::byte *>(mem2.p), mem2.n};
            std::vector<T> both;
            auto in = C::in(view2);
            r = in(both);
            REQUIRE(r == OK && both.size() == 2 && dumped(both[0]) == expected && dumped(both[1]) == expected, "two %s: %s, %zu of them: %s", PBM<T>::name, code_name(r), both.size(), hex(v.out, 300).c_str());
            ctx.label("in a vector");
        }
    }
    if (e.unknown) ctx.label("unknown fields");
    if (e.overridden) ctx.label("overridden values");
    if (e.split) ctx.label("split repeated fields");
    if (body.size() >= 2) ctx.nontrivial();
    if (ctx.sampling()) ctx.sample("%s as %s: %zu bytes, %u unknown fields, %u overridden, %u splits: %s", PBM<T>::name, C::name, body.size(), e.unknown, e.overridden, e.split, hex(body).c_str());
}
} // namespace c20
#define PB_CASES(TYPE, NAME, CFG, KIND) static eng::Registrar NAME##_##CFG{#NAME "." #CFG, &c20::run<TYPE, cfgs::CFG, KIND>};
