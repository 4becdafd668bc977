// C16: every member is counted, visited and serialized once, in declaration order.
#pragma once
#include "common.hpp"
#include "configs.hpp"

namespace c16
{
template <typename S, std::size_t N, typename Types, typename C>
void run(eng::Ctx & ctx, const void * style)
{
    using M = model::M<S>;
    auto what = static_cast<const char *>(style);
    REQUIRE(zpp::bits::number_of_members<S>() == N, "%d members detected, %zu declared [%s]", int(zpp::bits::number_of_members<S>()), N, what);
    REQUIRE(zpp::bits::number_of_members<const S &>() == N, "%d members detected of a const reference, %zu declared [%s]", int(zpp::bits::number_of_members<const S &>()), N, what);
    constexpr bool same_types = decltype(zpp::bits::visit_members_types<S>([]<typename... T>() {
        return std::bool_constant<std::is_same_v<std::tuple<std::remove_cvref_t<T>...>, Types>>{};
    }))::value;
    REQUIRE(same_types, "visit_members_types gives other types [%s of %zu]", what, N);

    S value = M::fresh();
    model::G g{ctx.src};
    g.limit(C::cfg.size == model::SP_1 ? 255 : 2000);
    g.big = false;
    g.budget = 60;
    M::gen(g, value);
    // Visiting: each member itself, in order.
    std::array<const void *, N + 1> addresses{};
    std::apply([&](auto &... m) { std::size_t i = 0; ((addresses[i++] = static_cast<const void *>(std::addressof(m))), ...); }, M::tie(value));
    unsigned calls = 0;
    auto check = [&](auto &&... m) {
        ++calls;
        REQUIRE(sizeof...(m) == N, "%zu members visited, %zu declared [%s]", sizeof...(m), N, what);
        std::size_t i = 0;
        auto one = [&](auto & x) {
            REQUIRE(i < N && static_cast<const void *>(std::addressof(x)) == addresses[i], "visited member %zu is not the declared one [%s of %zu]", i, what, N);
            ++i;
        };
        (one(m), ...);
        return 17 + int(sizeof...(m));
    };
    auto r = zpp::bits::visit_members(value, check);
    REQUIRE(calls == 1 && r == 17 + int(N), "visitor called %u times, returned %d [%s of %zu]", calls, r, what, N);
    r = zpp::bits::visit_members(std::as_const(value), check);
    REQUIRE(calls == 2 && r == 17 + int(N), "visitor of a const object called %u times, returned %d [%s of %zu]", calls - 1, r, what, N);
    zpp::bits::visit_members(value, [&](auto &... m) {
        static_assert((true && ... && !std::is_const_v<std::remove_reference_t<decltype(m)>>));
    });
    zpp::bits::visit_members(std::as_const(value), [&](auto &... m) {
        static_assert((true && ... && std::is_const_v<std::remove_reference_t<decltype(m)>>));
    });

    // Serializing: the members in order, nothing else.
    model::Enc e;
    e.cfg = C::cfg;
    M::enc(value, e);
    typename C::container data;
    auto out = C::out(data);
    auto code = std::errc(out(value));
    REQUIRE(code == OK, "%s [%s of %zu]", code_name(code), what, N);
    REQUIRE(out.position() == e.out.size() && data.size() == e.out.size() && equal_bytes(data.data(), e.out.data(), e.out.size()), "serialized to %s, its members to %s [%s of %zu]",
        hex(data.data(), data.size()).c_str(), hex(e.out).c_str(), what, N);
    typename C::container separate;
    auto out2 = C::out(separate);
    code = std::apply([&](auto &... m) -> std::errc { return out2(m...); }, M::tie(value));
    REQUIRE(code == OK && data == separate, "serialized to %s, its members one by one to %s [%s of %zu]", hex(data.data(), data.size()).c_str(), hex(separate.data(), separate.size()).c_str(), what, N);
    S back = M::fresh();
    auto in = C::in(data);
    code = std::errc(in(back));
    REQUIRE(code == OK && in.position() == data.size(), "reading: %s, %zu of %zu bytes [%s of %zu]", code_name(code), in.position(), data.size(), what, N);
    REQUIRE(M::eq(value, back), "reading: other value [%s of %zu]", what, N);
    // and into separate objects
    std::apply([&](auto &... m) {
        S other = M::fresh();
        auto in2 = C::in(data);
        std::errc c = std::apply([&](auto &... x) -> std::errc { return in2(x...); }, M::tie(other));
        REQUIRE(c == OK && M::eq(other, value), "reading its members one by one: %s [%s of %zu]", code_name(c), what, N);
    }, M::tie(value));
    ctx.label(what);
    if (N > 1) ctx.nontrivial();
    if (ctx.sampling()) ctx.sample("%s of %zu members, %s: %zu bytes", what, N, C::name, data.size());
}

// The same number of members through a protocol.
template <typename S, std::size_t N, typename Types>
void protocol(eng::Ctx & ctx, const void * style)
{
    auto what = static_cast<const char *>(style);
    REQUIRE(zpp::bits::number_of_members<S>() == N, "%d members detected, %zu declared [%s]", int(zpp::bits::number_of_members<S>()), N, what);
    constexpr bool same_types = decltype(zpp::bits::visit_members_types<S>([]<typename... T>() { return std::bool_constant<std::is_same_v<std::tuple<std::remove_cvref_t<T>...>, Types>>{}; }))::value;
    REQUIRE(same_types, "visit_members_types gives other types [%s of %zu]", what, N);
    S value;
    std::vector<std::uint32_t> numbers(N);
    for (auto & x : numbers) x = std::uint32_t(ctx.src.interesting(32));
    // fixed 32 bit members: tag and value of each, in order
    Bytes expected;
    unsigned calls = 0;
    zpp::bits::visit_members(value, [&](auto &... m) {
        std::size_t i = 0;
        auto one = [&](auto & x) {
            REQUIRE(static_cast<const void *>(std::addressof(x)) == value.at(i), "visited member %zu is not the declared one [%s of %zu]", i, what, N);
            std::memcpy(&x, &numbers[i], 4);
            ++i;
        };
        (one(m), ...);
        REQUIRE(i == N, "%zu members visited [%s of %zu]", i, what, N);
        ++calls;
    });
    REQUIRE(calls == 1, "visitor called %u times", calls);
    for (std::size_t i = 0; i < N; ++i) {
        auto tag = (i + 1) * 8 + 5;
        if (tag >= 128) { expected.push_back(tag % 128 + 128); expected.push_back(tag / 128); }
        else expected.push_back(tag);
        for (int k = 0; k < 4; ++k) expected.push_back(numbers[i] >> (8 * k));
    }
    std::vector<unsigned char> data;
    zpp::bits::out out{data, zpp::bits::no_size{}};
    std::errc code = out(value);
    REQUIRE(code == OK && data == expected, "%s: %s, expected %s [%s of %zu]", code_name(code), hex(data).c_str(), hex(expected).c_str(), what, N);
    S back;
    zpp::bits::in in{data, zpp::bits::no_size{}};
    code = in(back);
    REQUIRE(code == OK, "reading: %s [%s of %zu]", code_name(code), what, N);
    for (std::size_t i = 0; i < N; ++i) REQUIRE(!std::memcmp(back.at(i), &numbers[i], 4), "reading: member %zu differs [%s of %zu]", i, what, N);
    ctx.label(what);
    if (N > 1) ctx.nontrivial();
    if (ctx.sampling()) ctx.sample("%s of %zu members: %zu bytes", what, N, data.size());
}
} // namespace c16
