// C19: protobuf output parses elsewhere to the same values.
#pragma once
#include "pb.hpp"

namespace c19
{
using namespace pb;
template <typename C> using byte_t = typename C::byte;

template <typename T> Bytes bytes_of(const T & c)
{
    auto p = reinterpret_cast<const unsigned char *>(c.data());
    return Bytes(p, p + c.size());
}
inline std::size_t max_body(model::Cfg c)
{
    switch (c.size) {
    case model::SP_1: return 255;
    case model::SP_2: return 65535;
    default: return ~std::size_t{0};
    }
}

// The body behind the prefix at the front of b; the rest stays.
struct Split { std::size_t prefix, body; };
template <typename C>
Split split(const Bytes & b, std::size_t from, bool sized)
{
    if (!sized) return {0, b.size() - from};
    std::uint64_t n = 0;
    std::size_t w = 0;
    switch (C::cfg.size) {
    case model::SP_1: w = 1; break;
    case model::SP_2: w = 2; break;
    case model::SP_4: w = 4; break;
    case model::SP_8: w = 8; break;
    default: break;
    }
    if (!w) {
        unsigned shift = 0;
        for (auto p = from;; ++p, shift += 7) {
            REQUIRE(p < b.size() && shift < 64, "the message's size prefix is cut: %s", hex(b).c_str());
            n |= std::uint64_t(b[p] & 127) << shift;
            ++w;
            if (b[p] < 128) break;
        }
    } else {
        REQUIRE(b.size() - from >= w, "the message's size prefix is missing: %s", hex(b).c_str());
        for (std::size_t i = 0; i < w; ++i) n |= std::uint64_t(b[from + i]) << (8 * (C::cfg.swap ? w - 1 - i : i));
    }
    REQUIRE(n <= b.size() - from - w, "the message's size prefix says %llu bytes, %zu are left: %s", (unsigned long long)n, b.size() - from - w, hex(b).c_str());
    return {w, std::size_t(n)};
}

template <typename T>
void parse(const Bytes & b, std::size_t from, std::size_t n, const Bytes & expected, const char * what)
{
    Bytes seen;
    bool ok = pbo::dump(PBM<T>::name, b.data() + from, n, seen);
    REQUIRE(ok, "%s of %s is not valid protobuf: %s", what, PBM<T>::name, hex(b.data() + from, n, 200).c_str());
    REQUIRE(seen == expected, "%s of %s means something else: wire %s\n parsed %s\n wanted %s", what, PBM<T>::name, hex(b.data() + from, n, 200).c_str(), hex(seen, 300).c_str(), hex(expected, 300).c_str());
}

template <typename T, typename C>
void same_value(eng::Ctx & ctx, const Bytes & b, std::size_t from, std::size_t n, const Bytes & expected, bool last)
{
    Exact mem(b.data() + from, last ? b.size() - from : n);
    std::span<const byte_t<C>> s{reinterpret_cast<const byte_t<C> *>(mem.p), mem.n};
    auto in = C::in(s);
    T back{};
    if (ctx.src.flip()) { // zpp_bits writes every field, so whatever the object held is replaced
        G g{ctx.src};
        g.limit(20);
        g.budget = 10;
        gen_message(g, back);
    }
    std::errc r = in(back);
    REQUIRE(r == OK && in.position() == n, "%s does not read back: %s at %zu of %zu", PBM<T>::name, code_name(r), in.position(), n);
    auto d = dumped(back);
    REQUIRE(d == expected, "%s reads back differently: wire %s\n got %s\n wanted %s", PBM<T>::name, hex(mem.p, n, 200).c_str(), hex(d, 300).c_str(), hex(expected, 300).c_str());
}

// Wrappers around messages in ordinary archives: the surrounding bytes are known, the messages are those written alone.
template <typename T, typename C, typename W>
void wrapped(const W & w, Enc & expected, const char * what)
{
    typename C::container data;
    auto out = C::out(data);
    std::errc r = out(w);
    REQUIRE(r == OK, "%s of %s: %s", what, PBM<T>::name, code_name(r));
    auto b = bytes_of(data);
    REQUIRE(b == expected.out, "%s of %s: wrote %s\n wanted %s", what, PBM<T>::name, hex(b, 200).c_str(), hex(expected.out, 200).c_str());
}
template <typename T, typename C, typename W>
W reread(const Bytes & b, const char * what)
{
    Exact mem(b);
    std::span<const byte_t<C>> s{reinterpret_cast<const byte_t<C> *>(mem.p), mem.n};
    auto in = C::in(s);
    W w{};
    std::errc r = in(w);
    REQUIRE(r == OK && in.position() == b.size(), "%s of %s does not read back: %s at %zu of %zu", what, PBM<T>::name, code_name(r), in.position(), b.size());
    return w;
}

template <typename T, typename C, unsigned K>
void containers(eng::Ctx & ctx, const T & m, const Bytes & written, const Bytes & dump)
{
    auto & s = ctx.src;
    Enc e;
    e.cfg = C::cfg;
    auto raw = [&](const Bytes & b) { e.raw(b.data(), b.size()); };
    if constexpr (K == 0) {
        std::vector<T> v;
        auto n = s.below(4);
        if (s.flip(1, 20)) n = 100;
        e.size(n);
        for (std::size_t i = 0; i < n; ++i) { v.push_back(m); raw(written); }
        wrapped<T, C>(v, e, "a vector");
        auto w = reread<T, C, std::vector<T>>(e.out, "a vector");
        REQUIRE(w.size() == n && std::all_of(w.begin(), w.end(), [&](auto & x) { return dumped(x) == dump; }), "a vector of %s reads back differently", PBM<T>::name);
        ctx.label("in a vector");
    } else if constexpr (K == 1) {
        std::optional<T> v;
        bool has = s.flip(3, 4);
        e.byte(has);
        if (has) { v = m; raw(written); }
        wrapped<T, C>(v, e, "an optional");
        auto w = reread<T, C, std::optional<T>>(e.out, "an optional");
        REQUIRE(w.has_value() == has && (!has || dumped(*w) == dump), "an optional of %s reads back differently", PBM<T>::name);
        ctx.label("in an optional");
    } else if constexpr (K == 2) {
        std::pair<std::uint16_t, T> v{std::uint16_t(s.bits()), m};
        model::M<std::uint16_t>::enc(v.first, e);
        raw(written);
        wrapped<T, C>(v, e, "a pair");
        auto w = reread<T, C, std::pair<std::uint16_t, T>>(e.out, "a pair");
        REQUIRE(w.first == v.first && dumped(w.second) == dump, "a pair of %s reads back differently", PBM<T>::name);
        ctx.label("in a pair");
    } else if constexpr (K == 3) {
        std::map<std::uint8_t, T> v;
        auto n = s.below(4);
        e.size(n);
        for (std::size_t i = 0; i < n; ++i) { v.emplace(std::uint8_t(i * 3), m); e.byte(std::uint8_t(i * 3)); raw(written); }
        wrapped<T, C>(v, e, "a map");
        auto w = reread<T, C, std::map<std::uint8_t, T>>(e.out, "a map");
        REQUIRE(w.size() == n && std::all_of(w.begin(), w.end(), [&](auto & x) { return dumped(x.second) == dump; }), "a map of %s reads back differently", PBM<T>::name);
        ctx.label("in a map");
    } else if constexpr (K == 4) {
        std::array<T, 2> v{m, m};
        raw(written);
        raw(written);
        wrapped<T, C>(v, e, "an array");
        auto w = reread<T, C, std::array<T, 2>>(e.out, "an array");
        REQUIRE(dumped(w[0]) == dump && dumped(w[1]) == dump, "an array of %s reads back differently", PBM<T>::name);
        ctx.label("in an array");
    } else {
        auto v = std::make_unique<T>(m);
        raw(written);
        typename C::container data;
        auto out = C::out(data);
        std::errc r = out(v);
        REQUIRE(r == OK && bytes_of(data) == e.out, "a pointer to %s: %s, %s\n wanted %s", PBM<T>::name, code_name(r), hex(bytes_of(data), 200).c_str(), hex(e.out, 200).c_str());
        auto w = reread<T, C, std::unique_ptr<T>>(e.out, "a pointer");
        REQUIRE(w && dumped(*w) == dump, "a pointer to %s reads back differently", PBM<T>::name);
        ctx.label("behind a pointer");
    }
}

template <typename T, typename C, unsigned VARIANT>
void run(eng::Ctx & ctx, const void *)
{
    auto & s = ctx.src;
    T m{};
    G g{s};
    g.limit(300);
    g.budget = s.flip(1, 12) ? 2000 : 60;
    gen_message(g, m);
    auto dump = dumped(m);
    constexpr bool sized = C::cfg.size != model::SP_NONE;
    Bytes before = random_bytes(s, s.small(9)), after = random_bytes(s, sized ? s.small(5) : 0);

    // growable, with raw bytes around it
    auto write = [&](auto && out, auto & position) {
        std::errc r{};
        for (auto b : before) if (r = out(std::uint8_t(b)); r != OK) break;
        if (r == OK) r = out(std::as_const(m));
        if (r == OK) for (auto b : after) if (r = out(std::uint8_t(b)); r != OK) break;
        position = out.position();
        return r;
    };
    typename C::container data;
    std::size_t end = 0;
    std::errc r;
    constexpr unsigned variant = VARIANT % 6;
    if constexpr (variant == 0) r = write(C::out(data), end);
    else if constexpr (variant == 1) r = write(C::out(data, zpp::bits::no_fit_size{}), end);
    else if constexpr (variant == 2) r = write(C::out(data, zpp::bits::exact_enlarger{}), end);
    else if constexpr (variant == 3) r = write(C::out(data, zpp::bits::enlarger<2>{}, zpp::bits::no_fit_size{}), end);
    else if constexpr (variant == 4) r = write(C::out(data, zpp::bits::alloc_limit<(1 << 24)>{}, zpp::bits::no_enlarge_overflow{}), end);
    else {
        data.resize(s.below(200));
        r = write(C::out(data, zpp::bits::no_fit_size{}), end);
    }
    if (r == std::errc::message_size) { // only when the body does not fit its prefix
        REQUIRE(max_body(C::cfg) != ~std::size_t{0}, "%s: message_size", PBM<T>::name);
        typename C::container rest;
        zpp::bits::out big{rest, zpp::bits::no_size{}};
        REQUIRE(zpp::bits::success(big(std::as_const(m))) && big.position() > max_body(C::cfg), "%s of %zu bytes was refused", PBM<T>::name, big.position());
        ctx.label("too long for its prefix");
        ctx.nontrivial();
        return;
    }
    REQUIRE(r == OK, "%s was not written: %s", PBM<T>::name, code_name(r));
    REQUIRE(end <= data.size(), "the position is behind the data");
    auto b = bytes_of(data);
    b.resize(end);
    REQUIRE(b.size() >= before.size() + after.size() && equal_bytes(b.data(), before.data(), before.size()) &&
        equal_bytes(b.data() + b.size() - after.size(), after.data(), after.size()), "%s: the items around it were not kept: %s", PBM<T>::name, hex(b, 200).c_str());
    auto [prefix, body] = split<C>(b, before.size(), sized);
    REQUIRE(before.size() + prefix + body + after.size() == b.size(), "%s: the size prefix says %zu bytes, there are %zu: %s", PBM<T>::name, body, b.size() - before.size() - prefix - after.size(), hex(b, 200).c_str());
    if constexpr (sized) {
        auto wanted = prefix_size(C::cfg, body);
        REQUIRE(prefix == wanted, "%s: a prefix of %zu bytes for %zu", PBM<T>::name, prefix, body);
    }
    parse<T>(b, before.size() + prefix, body, dump, "the body");
    same_value<T, C>(ctx, b, before.size(), prefix + body, dump, sized);
    Bytes written(b.begin() + before.size(), b.begin() + before.size() + prefix + body);

    // the same bytes into memory of any size
    {
        auto room = s.flip() ? b.size() + s.below(3) : s.below(b.size() + 1);
        Exact mem(room);
        std::span<byte_t<C>> view{reinterpret_cast<byte_t<C> *>(mem.p), mem.n};
        std::size_t p;
        auto c = write(C::out(view), p);
        if (room >= b.size()) REQUIRE(c == OK && p == b.size() && equal_bytes(mem.p, b.data(), b.size()), "%s into %zu bytes: %s at %zu: %s\n wanted %s", PBM<T>::name, room, code_name(c), p, hex(mem.p, std::min(p, room), 200).c_str(), hex(b, 200).c_str());
        else REQUIRE(c == std::errc::result_out_of_range && p <= room, "%s of %zu bytes into %zu: %s at %zu", PBM<T>::name, b.size(), room, code_name(c), p);
        if (room < b.size()) ctx.label("too little room");
    }
    // the body alone, under other size policies
    if (s.flip(1, 3)) {
        Bytes alone(written.begin() + prefix, written.end());
        typename C::container other;
        zpp::bits::out o{other, zpp::bits::no_size{}};
        auto c = s.flip() ? std::errc(o(std::as_const(m))) : std::errc(C::out(other)(zpp::bits::unsized(std::as_const(m))));
        REQUIRE(c == OK && bytes_of(other) == alone, "%s without a size: %s, %s\n wanted %s", PBM<T>::name, code_name(c), hex(bytes_of(other), 200).c_str(), hex(alone, 200).c_str());
        typename C::container with;
        c = C::out(with)(zpp::bits::sized<std::uint32_t>(std::as_const(m)));
        Enc e;
        e.cfg = C::cfg;
        model::M<std::uint32_t>::enc(std::uint32_t(alone.size()), e);
        e.raw(alone.data(), alone.size());
        REQUIRE(c == OK && bytes_of(with) == e.out, "%s with a size of 4 bytes: %s, %s\n wanted %s", PBM<T>::name, code_name(c), hex(bytes_of(with), 200).c_str(), hex(e.out, 200).c_str());
        ctx.label("other size policy");
    }
    if constexpr (sized) if (s.flip(1, 3) && written.size() < 3000) containers<T, C, VARIANT / 6 % 6>(ctx, m, written, dump);
    ctx.label(body > 127 ? "long body" : body ? "short body" : "empty body");
    if (body >= 2) ctx.nontrivial();
    if (ctx.sampling()) ctx.sample("%s as %s: %zu bytes of body, %zu of prefix, variant %u", PBM<T>::name, C::name, body, prefix, variant);
}
} // namespace c19
#define PB_CASES(TYPE, NAME, CFG, KIND) static eng::Registrar NAME##_##CFG{#NAME "." #CFG, &c19::run<TYPE, cfgs::CFG, KIND>};
