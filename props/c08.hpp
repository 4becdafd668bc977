// C08: allocation limits bound the growth of output buffers and the size of decoded containers.
#pragma once
#include "common.hpp"
#include "pbtypes.hpp"
#include <set>
namespace c08x { struct rec { std::uint16_t a{}; std::string s; std::vector<std::uint32_t> v; }; struct padded { std::uint8_t a{}; std::uint64_t b{}; }; }
MODEL_STRUCT(c08x::rec, s.a, s.s, s.v)
MODEL_STRUCT(c08x::padded, s.a, s.b)
#define ITEM_PACKS c08_packs
template <typename... T> using c08_P = std::tuple<T...>;
using c08_packs = std::variant<
    c08_P<std::uint8_t>, c08_P<std::vector<std::uint8_t>>, c08_P<std::vector<std::uint16_t>>, c08_P<std::vector<std::uint64_t>>, c08_P<std::string>,
    c08_P<std::u16string>, c08_P<std::vector<std::string>>, c08_P<std::deque<std::uint32_t>>, c08_P<std::list<std::uint16_t>>,
    c08_P<std::vector<c08x::padded>>, c08_P<std::vector<std::vector<std::uint16_t>>>, c08_P<std::map<std::uint16_t, std::string>>,
    c08_P<c08x::rec, std::uint32_t>, c08_P<std::uint16_t, zpp::bits::vector1b<std::uint32_t>, zpp::bits::vector8b<std::uint16_t>>,
    c08_P<std::optional<std::vector<std::uint16_t>>, std::bitset<9>, zpp::bits::vuint64_t>, c08_P<std::variant<std::uint8_t, std::string>, std::unique_ptr<std::vector<std::byte>>>,
    c08_P<zpp::bits::sized_t<std::vector<std::uint16_t>, zpp::bits::vsize_t>, double>,
    c08_P<pm::text>, c08_P<std::uint8_t, pm::packed>, c08_P<std::vector<pm::text>, std::uint16_t>, c08_P<pm::nest, std::string>>;
#include "items.hpp"

namespace c08
{
using items::Item;
// whether an item holds protobuf messages
inline bool messages(const Item & i)
{
    return std::visit([]<typename... T>(const std::tuple<T...> &) {
        return (... || (std::is_same_v<T, pm::text> || std::is_same_v<T, pm::packed> || std::is_same_v<T, pm::nest> || std::is_same_v<T, std::vector<pm::text>>));
    }, i.v);
}
// containers of packs with map keys and values are walked by the reference encoder
template <typename C>
void output(eng::Ctx & ctx, const void *)
{
    constexpr std::size_t L = C::limit;
    auto initial = ctx.src.flip() ? ctx.src.small(20) : ctx.src.below(L + 20 > 300 ? 300 : L + 20);
    typename C::container data;
    Bytes before = random_bytes(ctx.src, initial);
    for (auto b : before) data.push_back((typename C::container::value_type)b);
    auto pos = ctx.src.flip() ? initial : ctx.src.below(initial + 1);
    auto out = C::out(data);
    out.reset(pos);
    std::string trace;
    auto calls = 1 + ctx.src.below(4);
    for (std::size_t i = 0; i < calls; ++i) {
        model::G g{ctx.src};
        g.big = ctx.src.flip(1, 3);
        g.budget = 40;
        g.limit(L < 100 ? 2 * L + 4 : L < 5000 ? L / 2 : 30000);
        Item item = Item::generate(g);
        if (C::cfg.size == model::SP_1) return;
        Bytes e = item.enc(C::cfg);
        before.assign(reinterpret_cast<unsigned char *>(data.data()), reinterpret_cast<unsigned char *>(data.data()) + data.size());
        auto size = data.size();
        auto want = pos + e.size();
        auto r = item.call(out);
        trace += " " + std::to_string(e.size()) + "@" + std::to_string(pos) + "/" + std::to_string(size) + "->" + code_name(r);
        auto bound = std::max(size, L);
        REQUIRE(data.size() <= bound, "limit %zu, but the buffer grew from %zu to %zu [%s]", L, size, data.size(), trace.c_str());
        REQUIRE(r == OK || r == std::errc::no_buffer_space, "limit %zu: %s [%s]", L, code_name(r), trace.c_str());
        if (want <= size) REQUIRE(r == OK, "limit %zu: %s although no growth is needed [%s]", L, code_name(r), trace.c_str());
        if (want > bound) REQUIRE(r != OK, "limit %zu: success although %zu bytes are needed [%s]", L, want, trace.c_str());
        if (want * C::mul / C::div <= L) REQUIRE(r == OK, "limit %zu: %s although growing to %zu respects it [%s]", L, code_name(r), want * C::mul / C::div, trace.c_str());
        auto now = out.position();
        REQUIRE(now >= pos && now <= data.size(), "position %zu of %zu", now, data.size());
        if (r == OK) REQUIRE(now == want, "position %zu, expected %zu [%s]", now, want, trace.c_str());
        else REQUIRE(now <= want, "position %zu beyond %zu [%s]", now, want, trace.c_str());
        auto p = reinterpret_cast<unsigned char *>(data.data());
        REQUIRE(equal_bytes(p, before.data(), pos), "bytes before the position changed [%s]", trace.c_str());
        // (a message that was refused never got its length)
        if (r == OK || !messages(item)) REQUIRE(equal_bytes(p + pos, e.data(), now - pos), "what was written is not a prefix of the encoding [%s]", trace.c_str());
        if (want > size) ctx.nontrivial();
        ctx.label(r == OK ? want > size ? "out: grew" : "out: fits" : "out: refused");
        if (r == OK && want <= L && want * C::mul / C::div > L) ctx.label("out: within the growth factor of the limit");
        pos = now;
        if (r != OK) break;
    }
    if (ctx.sampling()) ctx.sample("limit %zu:%s", L, trace.c_str());
}

template <typename C>
void input(eng::Ctx & ctx, const void *)
{
    constexpr std::size_t L = C::limit;
    model::G g{ctx.src};
    g.big = ctx.src.flip(1, 3);
    g.budget = 40;
    g.limit(L < 100 ? 2 * L + 4 : L < 5000 ? L * 3 / 2 : 90000);
    Item item = Item::generate(g);
    model::Enc e;
    e.cfg = C::cfg;
    std::vector<std::pair<std::size_t, std::size_t>> sizes;
    e.containers = &sizes;
    std::vector<std::size_t> lengths;
    e.lengths = &lengths;
    std::visit([&]<typename T>(const T & t) { model::M<T>::enc(t, e); }, item.v);
    bool exceeds = false;
    for (auto [n, w] : sizes) exceeds |= n > L / w;
    for (auto n : lengths) exceeds |= n > L;
    bool hostile = ctx.src.flip(1, 3) && e.out.size();
    if (hostile) {
        // claim other sizes than there are
        auto k = 1 + ctx.src.below(3);
        for (std::size_t i = 0; i < k; ++i) {
            auto at = ctx.src.below(e.out.size());
            switch (ctx.src.below(3)) {
            case 0: e.out[at] = 0xff; break;
            case 1: e.out[at] = (unsigned char)ctx.src.below(256); break;
            default: for (auto j = at; j < at + 9 && j < e.out.size(); ++j) e.out[j] = 0xff; break;
            }
        }
    }
    Exact data(e.out);
    Item back = item.blank();
    std::span<const typename C::container::value_type> s{reinterpret_cast<const typename C::container::value_type *>(data.p), data.n};
    auto in = C::in(s);
    eng::alloc_reset_peaks();
    auto r = back.call(in);
    auto largest = eng::alloc().max_request;
    ctx.label(hostile ? "in: hostile" : exceeds ? "in: exceeds" : "in: respects");
    std::vector<std::pair<std::size_t, std::size_t>> got;
    model::Enc e2;
    e2.containers = &got;
    bool null = false;
    std::visit([&](auto & t) { std::apply([&](auto &... x) { (..., [&] {
        if constexpr (std::is_same_v<std::remove_cvref_t<decltype(x)>, std::unique_ptr<std::vector<std::byte>>>) null |= !x; }()); }, t); }, back.v);
    if (!null) std::visit([&]<typename T>(const T & t) { model::M<T>::enc(t, e2); }, back.v);
    for (auto [n, w] : got) REQUIRE(n <= L / w, "limit %zu: a container of %zu elements of %zu bytes was decoded (%s) from %s", L, n, w, code_name(r), hex(e.out).c_str());
    // one request: at most the limit, with the container's own growth policy and node sizes
    REQUIRE(largest <= (messages(item) ? 8 : 2) * L + 8192, "limit %zu: %zu bytes requested at once for %s", L, largest, hex(e.out).c_str());
    if (!hostile) {
        if (exceeds) {
            REQUIRE(r == std::errc::message_size, "limit %zu: %s for containers beyond it: %s", L, code_name(r), hex(e.out).c_str());
        } else {
            REQUIRE(r == OK, "limit %zu: %s although it is respected: %s", L, code_name(r), hex(e.out).c_str());
            REQUIRE(in.position() == data.n && back.eq(item), "limit %zu: decoded differently: %s", L, hex(e.out).c_str());
        }
    } else {
        REQUIRE(r == OK || r == std::errc::message_size || r == std::errc::result_out_of_range || r == std::errc::value_too_large || r == std::errc::bad_message || (messages(item) && r == std::errc::protocol_error),
                "limit %zu: outcome %d for %s", L, (int)r, hex(e.out).c_str());
    }
    if (!sizes.empty() || !lengths.empty()) ctx.nontrivial();
    if (ctx.sampling()) ctx.sample("limit %zu, %zu containers%s: %s -> %s", L, sizes.size(), hostile ? ", corrupted" : "", hex(e.out, 30).c_str(), code_name(r));
}
} // namespace c08
#define C08_CONFIG(NAME, LIMIT, CONTAINER, MUL, DIV, SWAP, SIZE, ...)                              \
    struct NAME                                                                                    \
    {                                                                                              \
        using container = CONTAINER;                                                               \
        static constexpr std::size_t limit = LIMIT, mul = MUL, div = DIV;                          \
        static constexpr model::Cfg cfg{SWAP, SIZE};                                               \
        static auto out(auto & b) { return zpp::bits::out{b, zpp::bits::alloc_limit<LIMIT>{} __VA_OPT__(,) __VA_ARGS__}; } \
        static auto in(auto & b) { return zpp::bits::in{b, zpp::bits::alloc_limit<LIMIT>{} __VA_OPT__(,) __VA_ARGS__}; }   \
    };                                                                                             \
    static eng::Registrar reg_out_##NAME{"output_" #NAME, &c08::output<NAME>};                     \
    static eng::Registrar reg_in_##NAME{"input_" #NAME, &c08::input<NAME>};
using namespace zpp::bits::options;
namespace e = zpp::bits::endian;
using vb = std::vector<std::byte>;
using vc = std::vector<char>;
using vu = std::vector<unsigned char>;
using st = std::string;
