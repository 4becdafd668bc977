// C29: user functions that throw while an archive runs them.
#pragma once
#include "common.hpp"
#include "configs.hpp"
#include <deque>
#include <list>
#include <map>
#include <memory>
#include <optional>
#include <set>
#include <variant>

namespace c29
{
struct Script { std::size_t visited = 0, fail_at = ~std::size_t{0}; bool after = false; };
inline Script script;
struct thrown { int value; };
inline std::size_t encoded_bombs = 0;

// The n-th visited one throws, before or after its payload.
std::errc visit(auto & archive, auto & payload)
{
    auto n = script.visited++;
    if (n == script.fail_at && !script.after) throw thrown{1234};
    if (auto r = archive(payload); zpp::bits::failure(r)) return r;
    if (n == script.fail_at) throw thrown{1234};
    return {};
}
struct bomb // serialized by a member function
{
    std::uint16_t payload{};
    static std::errc serialize(auto & archive, auto & self) { return visit(archive, self.payload); }
    auto operator<=>(const bomb &) const = default;
};
struct bomb2 { std::string payload; }; // by a function found by argument dependent lookup
zpp::bits::errc serialize(auto & archive, bomb2 & self) { return visit(archive, self.payload); }
zpp::bits::errc serialize(auto & archive, const bomb2 & self) { return visit(archive, self.payload); }
struct outer { std::uint8_t a{}; bomb x; std::vector<bomb2> y; std::string z; bomb2 w; };
struct listed { using serialize = zpp::bits::members<3>; std::unique_ptr<std::uint32_t> a = std::make_unique<std::uint32_t>(); bomb2 x; std::string b; };
struct custom
{
    bomb x; std::vector<std::string> s; bomb2 y;
    static auto serialize(auto & archive, auto & self) { return archive(self.x, self.s, self.y); }
};
struct node { bomb b; std::optional<std::string> s; zpp::bits::optional_ptr<node> left, right; };
struct no_default
{
    using serialize = zpp::bits::members<2>;
    std::string s; bomb b;
    explicit no_default(int) {}
private:
    friend zpp::bits::access;
    no_default() = default;
};
template <typename X> struct bomb_model
{
    static X fresh() { return X{}; }
    static constexpr bool hostile = true, ordered = true, cheap = false;
    static constexpr std::size_t min_bytes = 1;
    static void gen(model::G & g, X & x) { model::M<decltype(x.payload)>::gen(g, x.payload); }
    static void enc(const X & x, model::Enc & e) { ++encoded_bombs; model::M<std::remove_cvref_t<decltype(x.payload)>>::enc(x.payload, e); }
    static bool eq(const X & a, const X & b) { return a.payload == b.payload; }
};
} // namespace c29
template <> struct model::M<c29::bomb> : c29::bomb_model<c29::bomb> {};
template <> struct model::M<c29::bomb2> : c29::bomb_model<c29::bomb2> {};
MODEL_STRUCT(c29::outer, s.a, s.x, s.y, s.z, s.w)
MODEL_STRUCT(c29::listed, s.a, s.x, s.b)
MODEL_STRUCT(c29::custom, s.x, s.s, s.y)
MODEL_RECURSIVE(c29::node, true, true, 4, s.b, s.s, s.left, s.right)
template <> struct model::M<c29::no_default> : model::StructModel<c29::no_default, model::M<c29::no_default>>
{
    static c29::no_default fresh() { return c29::no_default(1); }
    static auto tie(auto & s) { return std::tie(s.s, s.b); }
    static constexpr bool hostile = true, ordered = true;
    static constexpr std::size_t min_bytes = 0;
};

namespace c29
{
template <typename T, typename C>
struct test
{
    struct Reset { ~Reset() { script = {}; } };
    static bool call(auto && f, std::errc & code)
    {
        try {
            code = f();
            return false;
        } catch (const thrown & t) {
            REQUIRE(t.value == 1234, "another exception came out");
            return true;
        }
    }
    static void run(eng::Ctx & ctx, const void * name_)
    {
        auto name = static_cast<const char *>(name_);
        Reset reset;
        script = {};
        using M = model::M<T>;
        model::G g{ctx.src};
        g.big = false;
        g.budget = 40;
        g.limit(60);
        auto v = std::make_unique<T>(M::fresh());
        M::gen(g, *v);
        model::Enc e;
        e.cfg = C::cfg;
        encoded_bombs = 0;
        M::enc(*v, e);
        auto bombs = encoded_bombs;
        Bytes enc = std::move(e.out);
        auto at = bombs ? ctx.src.below(bombs) : 0;
        bool after = ctx.src.flip();
        auto arm = [&] { script = {0, bombs ? at : ~std::size_t{0}, after}; };
        auto front = ctx.src.below(5);
        std::errc code{};
        if (bombs) ctx.nontrivial();
        switch (ctx.src.below(3)) {
        case 0: { // reading
            ctx.label("read");
            Bytes whole = random_bytes(ctx.src, front);
            whole.insert(whole.end(), enc.begin(), enc.end());
            Exact x(whole);
            std::span<const typename C::byte> s{reinterpret_cast<const typename C::byte *>(x.p), x.n};
            auto target = std::make_unique<T>(M::fresh());
            if (ctx.src.flip(1, 3)) M::gen(g, *target);
            auto in = C::in(s);
            in.reset(front);
            arm();
            bool threw = call([&]() -> std::errc { return in(*target); }, code);
            REQUIRE(threw == (bombs > 0), "%s: %s", name, threw ? "an exception" : "no exception");
            if (threw) {
                REQUIRE(script.visited == at + 1, "%s: %zu further functions called after the exception", name, script.visited - at - 1);
                REQUIRE(in.position() >= front && in.position() <= x.n, "%s: position %zu outside of [%zu, %zu]", name, std::size_t(in.position()), std::size_t(front), x.n);
                script = {};
                in.reset(front);
                code = in(*target);
            }
            REQUIRE(code == OK && in.position() == x.n, "%s: %s at %zu of %zu%s", name, code_name(code), std::size_t(in.position()), x.n, threw ? " after an exception" : "");
            REQUIRE(M::eq(*target, *v), "%s: the object read%s differs", name, threw ? " after an exception" : "");
            break;
        }
        case 1: { // growing output
            ctx.label("grow");
            Bytes initial = random_bytes(ctx.src, front + ctx.src.below(4));
            auto b = reinterpret_cast<const typename C::byte *>(initial.data());
            typename C::container data(b, b + initial.size());
            auto out = C::out(data);
            out.reset(front);
            arm();
            bool threw = call([&]() -> std::errc { return out(*v); }, code);
            REQUIRE(threw == (bombs > 0), "%s: %s", name, threw ? "an exception" : "no exception");
            if (threw) {
                REQUIRE(script.visited == at + 1, "%s: %zu further functions called after the exception", name, script.visited - at - 1);
                REQUIRE(out.position() >= front && out.position() <= data.size() && data.size() >= initial.size(), "%s: position %zu in a buffer of %zu, from %zu in one of %zu", name, std::size_t(out.position()), data.size(),
                        std::size_t(front), initial.size());
                REQUIRE(equal_bytes(data.data(), initial.data(), front) && equal_bytes(data.data() + front, enc.data(), out.position() - front), "%s: the buffer does not hold what was written before the exception", name);
                script = {};
                out.reset(front);
                code = out(*v);
            }
            REQUIRE(code == OK && out.position() == front + enc.size() && out.position() <= data.size(), "%s: %s at %zu%s", name, code_name(code), std::size_t(out.position()), threw ? " after an exception" : "");
            REQUIRE(equal_bytes(data.data(), initial.data(), front) && equal_bytes(data.data() + front, enc.data(), enc.size()), "%s: other bytes%s", name, threw ? " after an exception" : "");
            break;
        }
        default: { // fixed output
            ctx.label("fixed");
            Bytes whole = random_bytes(ctx.src, front + enc.size());
            Exact x(whole);
            std::span<typename C::byte> s{reinterpret_cast<typename C::byte *>(x.p), x.n};
            auto out = C::out(s);
            out.reset(front);
            arm();
            bool threw = call([&]() -> std::errc { return out(*v); }, code);
            REQUIRE(threw == (bombs > 0), "%s: %s", name, threw ? "an exception" : "no exception");
            if (threw) {
                REQUIRE(out.position() >= front && out.position() <= x.n, "%s: position %zu of %zu", name, std::size_t(out.position()), x.n);
                REQUIRE(equal_bytes(x.p, whole.data(), front) && equal_bytes(x.p + front, enc.data(), out.position() - front), "%s: the buffer does not hold what was written before the exception", name);
                script = {};
                out.reset(front);
                code = out(*v);
            }
            REQUIRE(code == OK && out.position() == x.n, "%s: %s at %zu of %zu%s", name, code_name(code), std::size_t(out.position()), x.n, threw ? " after an exception" : "");
            REQUIRE(equal_bytes(x.p, whole.data(), front) && equal_bytes(x.p + front, enc.data(), enc.size()), "%s: other bytes%s", name, threw ? " after an exception" : "");
        }
        }
        if (ctx.sampling()) ctx.sample("%s: function %zu of %zu throws %s its payload in %s", name, std::size_t(at), bombs, after ? "after" : "before", hex(enc, 40).c_str());
    }
};
template <typename... T> using P = std::tuple<T...>;
using std::string;
using u8 = std::uint8_t;
using std::vector, std::optional, std::unique_ptr, std::shared_ptr, std::variant, std::map, std::pair;
using zpp::bits::optional_ptr;
} // namespace c29

#define C29(NAME, C, ...) namespace c29 { static eng::Registrar reg_##NAME##_##C{"throws_" #NAME "." #C, &test<__VA_ARGS__, cfgs::C>::run, #NAME "." #C}; }
