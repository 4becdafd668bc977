// C12: the first failing item stops the call and its exact error is reported.
#pragma once
#include "common.hpp"

namespace c12
{
// What the probes do: the n-th visited one fails with the code, before or after its payload.
struct Script
{
    std::size_t visited = 0, fail_at = ~std::size_t{0};
    std::errc code{};
    bool after = false;
};
inline Script script;
// What the model saw: where things are in the encoding and the first item that must fail.
struct Marks
{
    std::vector<std::size_t> probe, variant, varint, string, pointer;
    std::size_t bad = ~std::size_t{0};
    std::errc code{};
    bool on = false; // the output side fails at null pointers and valueless variants
    void fails(std::size_t at, std::errc c) { if (bad == ~std::size_t{0}) { bad = at; code = c; } }
};
inline Marks marks;
inline bool gen_bad = false;

struct probe // serialized by a member function
{
    std::uint16_t payload{};
    constexpr static std::errc serialize(auto & archive, auto & self)
    {
        auto n = script.visited++;
        if (n == script.fail_at && !script.after) return script.code;
        if (auto r = archive(self.payload); zpp::bits::failure(r)) return r;
        if (n == script.fail_at) return script.code;
        return {};
    }
};
struct probe2 // by a function found by argument dependent lookup
{
    std::uint16_t payload{};
};
constexpr zpp::bits::errc serialize(auto & archive, probe2 & self) { return probe::serialize(archive, self); }
constexpr zpp::bits::errc serialize(auto & archive, const probe2 & self) { return probe::serialize(archive, self); }

struct leaf
{
    probe q;
    std::variant<std::uint8_t, std::string> v;
    zpp::bits::vuint64_t n;
    std::string s;
    std::unique_ptr<std::uint16_t> p = std::make_unique<std::uint16_t>();
};
struct outer { std::uint8_t a{}; leaf x; std::vector<leaf> y; std::string z; probe2 w; };
struct listed { using serialize = zpp::bits::members<3>; std::uint32_t a{}; leaf x; std::uint8_t b{}; };
struct custom
{
    leaf x; probe2 b; leaf y;
    constexpr static auto serialize(auto & archive, auto & self) { return archive(self.x, self.b, self.y); }
};
} // namespace c12

template <typename P> struct c12_probe_model
{
    static P fresh() { return P{}; }
    static constexpr bool hostile = true, ordered = true, cheap = false;
    static constexpr std::size_t min_bytes = 2;
    static void gen(model::G & g, P & p) { model::M<std::uint16_t>::gen(g, p.payload); }
    static void enc(const P & p, model::Enc & e)
    {
        auto n = c12::marks.probe.size();
        c12::marks.probe.push_back(e.out.size());
        if (n == c12::script.fail_at && !c12::script.after) c12::marks.fails(e.out.size(), c12::script.code);
        e.value(p.payload);
        if (n == c12::script.fail_at) c12::marks.fails(e.out.size(), c12::script.code);
    }
    static bool eq(const P & a, const P & b) { return a.payload == b.payload; }
};
template <> struct model::M<c12::probe> : c12_probe_model<c12::probe> {};
template <> struct model::M<c12::probe2> : c12_probe_model<c12::probe2> {};
template <> struct model::M<c12::leaf>
{
    using L = c12::leaf;
    static L fresh() { return L{}; }
    static constexpr bool hostile = true, ordered = true, cheap = false;
    static constexpr std::size_t min_bytes = 1;
    struct bomb { operator std::string() const { throw 1; } };
    static void gen(G & g, L & l)
    {
        Deeper d{g};
        M<c12::probe>::gen(g, l.q);
        M<decltype(l.v)>::gen(g, l.v);
        M<decltype(l.n)>::gen(g, l.n);
        M<decltype(l.s)>::gen(g, l.s);
        M<decltype(l.p)>::gen(g, l.p);
        if (c12::gen_bad && g.src.flip(1, 4)) l.p.reset();
        if (c12::gen_bad && g.src.flip(1, 4)) { try { l.v.emplace<1>(bomb{}); } catch (int) {} }
    }
    static void enc(const L & l, Enc & e)
    {
        M<c12::probe>::enc(l.q, e);
        c12::marks.variant.push_back(e.out.size());
        if (c12::marks.on && l.v.valueless_by_exception()) c12::marks.fails(e.out.size(), std::errc::invalid_argument);
        M<decltype(l.v)>::enc(l.v, e);
        c12::marks.varint.push_back(e.out.size());
        M<decltype(l.n)>::enc(l.n, e);
        c12::marks.string.push_back(e.out.size());
        M<decltype(l.s)>::enc(l.s, e);
        c12::marks.pointer.push_back(e.out.size());
        if (c12::marks.on && !l.p) c12::marks.fails(e.out.size(), std::errc::invalid_argument);
        M<decltype(l.p)>::enc(l.p, e);
    }
    static bool eq(const L & a, const L & b)
    {
        return M<c12::probe>::eq(a.q, b.q) && M<decltype(a.v)>::eq(a.v, b.v) && M<decltype(a.n)>::eq(a.n, b.n) && M<decltype(a.s)>::eq(a.s, b.s) &&
               (!a.p && !b.p ? true : M<decltype(a.p)>::eq(a.p, b.p));
    }
};
MODEL_STRUCT(c12::outer, s.a, s.x, s.y, s.z, s.w)
MODEL_STRUCT(c12::listed, s.a, s.x, s.b)
MODEL_STRUCT(c12::custom, s.x, s.b, s.y)

namespace c12
{
template <typename... T> using P = std::tuple<T...>;
using u8 = std::uint8_t; using u16 = std::uint16_t;
using std::string;
template <int G> struct Group;
template <> struct Group<0> { using type = std::variant<P<probe, u16, string>, P<u16, leaf, string, probe>, P<leaf, leaf, leaf>, P<probe, std::vector<leaf>, probe2, u8>, P<u8, std::optional<leaf>, probe>, P<probe, probe2, probe, probe2, probe, probe2>>; };
template <> struct Group<1> { using type = std::variant<P<u8, std::unique_ptr<leaf>, probe>, P<std::shared_ptr<leaf>, u16, probe2>, P<std::variant<u8, leaf>, probe>, P<u16, std::tuple<u8, leaf, u16>, probe>, P<std::pair<leaf, leaf>, u8>, P<outer, probe>>; };
template <> struct Group<2> { using type = std::variant<P<std::map<u8, leaf>, probe>, P<u8, std::array<leaf, 3>, probe2>, P<std::list<leaf>, probe>, P<zpp::bits::vector1b<leaf>, probe>, P<zpp::bits::optional_ptr<leaf>, probe>, P<custom, string, custom>, P<listed, outer>>; };
template <> struct Group<3> { using type = std::variant<P<std::vector<std::optional<std::unique_ptr<leaf>>>, probe>, P<std::map<u8, std::vector<std::pair<u8, leaf>>>, probe>, P<std::deque<std::variant<leaf, string>>, leaf>, P<std::optional<std::vector<listed>>, u8, std::array<std::optional<custom>, 2>>, P<std::map<string, std::optional<outer>>, leaf>>; };

template <typename Tuple>
struct Call
{
    Tuple t = make(std::type_identity<Tuple>{});
    template <typename... T> static Tuple make(std::type_identity<std::tuple<T...>>) { return Tuple{model::M<T>::fresh()...}; }
    void gen(model::G & g) { model::M<Tuple>::gen(g, t); }
    // encodes every argument, noting where each ends
    Bytes enc(model::Cfg cfg, std::vector<std::size_t> & ends) const
    {
        model::Enc e;
        e.cfg = cfg;
        ends.clear();
        auto saved = marks;
        marks = {};
        marks.on = saved.on;
        std::apply([&](auto &... x) { ((model::M<std::remove_cvref_t<decltype(x)>>::enc(x, e), ends.push_back(e.out.size())), ...); }, t);
        return e.out;
    }
    // plain bytes of each argument (to see whether it was touched)
    std::vector<Bytes> state() const
    {
        auto saved = marks;
        auto saved_script = script;
        std::vector<Bytes> r;
        std::apply([&](auto &... x) { (..., [&] { model::Enc e; model::M<std::remove_cvref_t<decltype(x)>>::enc(x, e); r.push_back(e.out); }()); }, t);
        marks = saved;
        script = saved_script;
        return r;
    }
};

// every way of looking at the result agrees
inline std::errc forms(auto && result)
{
    std::errc c = result;
    REQUIRE(result == c && result.code == c, "the result does not compare equal to its code");
    REQUIRE(zpp::bits::failure(result) == (c != std::errc{}), "failure() of %s", code_name(c));
    REQUIRE(zpp::bits::success(result) == (c == std::errc{}), "success() of %s", code_name(c));
    REQUIRE(zpp::bits::failure(c) == (c != std::errc{}) && zpp::bits::success(c) == (c == std::errc{}), "predicates of the plain code %s", code_name(c));
    bool thrown = false;
    auto live = eng::alloc(); // the exception's message is released inside libc++abi, unseen by the engine
    try {
        result.or_throw();
    } catch (const std::system_error & e) {
        thrown = true;
        REQUIRE(e.code() == std::make_error_code(c), "or_throw() of %s throws %s", code_name(c), e.code().message().c_str());
    }
    eng::alloc() = live;
    REQUIRE(thrown == (c != std::errc{}), "or_throw() of %s %s", code_name(c), thrown ? "throws" : "does not throw");
    return c;
}

inline std::errc random_code(eng::Ctx & ctx)
{
    static const std::errc codes[] = {std::errc::result_out_of_range, std::errc::no_buffer_space, std::errc::value_too_large, std::errc::message_size, std::errc::not_supported,
        std::errc::bad_message, std::errc::invalid_argument, std::errc::protocol_error, std::errc::permission_denied, std::errc::timed_out, std::errc(12345), std::errc(-1)};
    return codes[ctx.src.below(12)];
}

constexpr std::size_t limit = 4096; // above every container of the generated values
struct Forget { ~Forget() { marks = {}; script = {}; gen_bad = false; } };

template <typename C, typename Tuple>
void output(eng::Ctx & ctx)
{
    Call<Tuple> call;
    model::G g{ctx.src};
    g.big = false;
    g.budget = 40;
    g.limit(60);
    gen_bad = ctx.src.flip();
    call.gen(g);
    gen_bad = false;
    script = {};
    marks = {};
    marks.on = true;
    std::vector<std::size_t> ends;
    if (ctx.src.flip(2, 3)) {
        call.enc(C::cfg, ends);
        auto n = marks.probe.size();
        script.fail_at = ctx.src.below(n + 1);
        script.code = random_code(ctx);
        script.after = ctx.src.flip();
        marks = {};
        marks.on = true;
    }
    auto e = call.enc(C::cfg, ends);
    auto first_bad = marks.bad;
    auto expect = marks.code;
    auto check = [&](auto & out, const unsigned char * data, std::size_t size, std::size_t bad, std::errc code, const char * how) {
        script.visited = 0;
        auto r = forms(std::apply([&](auto &... x) { return out(x...); }, call.t));
        REQUIRE(r == code, "%s: %s, expected %s at byte %zd of %zu", how, code_name(r), code_name(code), (ssize_t)bad, e.size());
        (void)data; (void)size;
    };
    auto verify = [&](const auto * data, std::size_t size, std::size_t position, std::size_t bad, const char * how) {
        // earlier items are completely written, nothing of later ones is
        std::size_t done = 0, upto = std::min(bad, e.size());
        for (auto x : ends) if (x <= upto) done = x;
        REQUIRE(size >= done && position >= done, "%s: %zu bytes, position %zu, %zu bytes of earlier items expected", how, size, position, done);
        REQUIRE(position <= upto, "%s: position %zu, the failing item starts at %zu", how, position, upto);
        REQUIRE(equal_bytes(data, e.data(), std::min(position, upto)), "%s: %s, expected %s", how, hex(data, std::min(position, upto)).c_str(), hex(e).c_str());
        std::size_t seen = 0;
        for (auto x : marks.probe) seen += x <= upto;
        bool through = bad == ~std::size_t{0};
        REQUIRE(script.visited <= seen && (!through || script.visited == marks.probe.size()), "%s: %zu items visited, expected %zu", how, script.visited, seen);
    };
    {
        std::vector<std::byte> data;
        auto out = C::out(data);
        check(out, nullptr, 0, first_bad, expect, "growing output");
        verify(data.data(), data.size(), out.position(), first_bad, "growing output");
        if (first_bad == ~std::size_t{0}) REQUIRE(data.size() == e.size(), "%zu bytes written, expected %zu", data.size(), e.size());
    }
    if (first_bad != ~std::size_t{0}) { ctx.nontrivial(); ctx.label(expect == std::errc::invalid_argument ? "null pointer, valueless variant or that code" : "code of a user function"); }
    // a buffer that is too short for one of the items
    auto cap = ctx.src.below(e.size() + 2);
    {
        Exact mem(cap);
        std::span<std::byte> s{reinterpret_cast<std::byte *>(mem.p), mem.n};
        auto out = C::out(s);
        bool short_first = cap < std::min(first_bad, e.size());
        check(out, mem.p, mem.n, short_first ? cap : first_bad, short_first ? std::errc::result_out_of_range : expect, "fixed output");
        verify(mem.p, mem.n, out.position(), short_first ? cap : first_bad, "fixed output");
        if (short_first) { ctx.nontrivial(); ctx.label("fixed buffer too short"); }
    }
    if (C::limited && e.size() > 100) {
        std::vector<std::byte> data;
        auto out = C::out(data, zpp::bits::alloc_limit<100>{}, zpp::bits::exact_enlarger{});
        bool limit_first = 100 < std::min(first_bad, e.size());
        check(out, nullptr, 0, limit_first ? 100 : first_bad, limit_first ? std::errc::no_buffer_space : expect, "limited output");
        verify(data.data(), data.size(), out.position(), limit_first ? 100 : first_bad, "limited output");
        if (limit_first) ctx.label("output limit");
    }
    if (ctx.sampling()) ctx.sample("%s output of %zu items, %zu bytes: %s at %zd", C::name, ends.size(), e.size(), code_name(expect), (ssize_t)first_bad);
}

template <typename C, typename Tuple>
void input(eng::Ctx & ctx)
{
    Call<Tuple> call, target;
    model::G g{ctx.src};
    g.big = false;
    g.budget = 40;
    g.limit(60);
    call.gen(g);
    g.budget = 20;
    target.gen(g);
    script = {};
    marks = {};
    std::vector<std::size_t> ends;
    auto e = call.enc(C::cfg, ends);
    auto bad = ~std::size_t{0}; // where the failing item starts
    std::errc expect{};
    const char * what = "valid";
    auto with = e;
    auto cause = ctx.src.below(6);
    bool use_limit = C::limited && ctx.src.flip();
    if (cause == 1 || cause == 5) {
        script.fail_at = ctx.src.below(marks.probe.size() + 1);
        script.code = random_code(ctx);
        script.after = ctx.src.flip();
        if (script.fail_at < marks.probe.size()) { bad = marks.probe[script.fail_at] + (script.after ? 2 : 0); expect = script.code; what = "user function"; }
    } else if (cause == 2 && !marks.variant.empty()) {
        bad = marks.variant[ctx.src.below(marks.variant.size())];
        with[bad] = (unsigned char)(2 + ctx.src.below(254));
        expect = std::errc::bad_message;
        what = "unknown variant id";
    } else if (cause == 3 && !marks.varint.empty()) {
        bad = marks.varint[ctx.src.below(marks.varint.size())];
        with.resize(bad);
        with.resize(bad + 12, 0x80 | (unsigned char)ctx.src.below(128));
        expect = std::errc::value_too_large;
        what = "varint too long";
    } else if (cause == 4 && use_limit && !marks.string.empty()) {
        bad = marks.string[ctx.src.below(marks.string.size())];
        with.resize(bad);
        model::Enc p;
        p.cfg = C::cfg;
        p.size(limit + 1 + ctx.src.below(90));
        with.insert(with.end(), p.out.begin(), p.out.end());
        with.resize(with.size() + 5000, 'x');
        expect = std::errc::message_size;
        what = "allocation limit";
    }
    if ((cause == 0 || cause == 5) && e.size()) {
        auto n = ctx.src.below(e.size());
        if (n < bad) { with.resize(n); bad = n; expect = std::errc::result_out_of_range; what = "truncated"; }
    }
    ctx.label(what);
    auto before = target.state();
    auto values = call.state();
    Exact mem(with);
    std::span<const std::byte> s{reinterpret_cast<const std::byte *>(mem.p), mem.n};
    auto run = [&](auto & in) {
        script.visited = 0;
        auto r = forms(std::apply([&](auto &... x) { return in(x...); }, target.t));
        REQUIRE(r == expect, "input (%s at byte %zd of %zu): %s, expected %s", what, (ssize_t)bad, e.size(), code_name(r), code_name(expect));
        auto after = target.state();
        auto upto = std::min(bad, e.size());
        std::size_t failing = 0;
        while (failing < ends.size() && ends[failing] <= upto && !(script.after && ends[failing] == upto && bad == upto && script.fail_at < marks.probe.size() && marks.probe[script.fail_at] + 2 == bad)) ++failing;
        if (bad == ~std::size_t{0}) failing = ends.size();
        for (std::size_t i = 0; i < ends.size(); ++i) {
            // an item without any bytes at the failing position belongs to the earlier ones
            if (i < failing) REQUIRE(after[i] == values[i], "input (%s): item %zu of %zu before the failing one is %s, expected %s", what, i, ends.size(), hex(after[i]).c_str(), hex(values[i]).c_str());
            else if (i > failing) REQUIRE(after[i] == before[i], "input (%s): item %zu of %zu was touched after item %zu failed", what, i, ends.size(), failing);
        }
        REQUIRE(in.position() <= mem.n, "position %zu beyond %zu", in.position(), mem.n);
        REQUIRE(failing == 0 || in.position() >= ends[failing - 1], "position %zu before the end %zu of the complete items", in.position(), ends[failing - 1]);
        if (bad == ~std::size_t{0}) REQUIRE(in.position() == e.size(), "position %zu, expected %zu", in.position(), e.size());
        std::size_t seen = 0;
        for (auto x : marks.probe) seen += x <= upto;
        REQUIRE(script.visited <= seen, "input (%s): %zu items visited, expected %zu", what, script.visited, seen);
        if (bad != ~std::size_t{0} && ends.size() > 1) ctx.nontrivial();
    };
    if (use_limit) {
        auto in = C::in(s, zpp::bits::alloc_limit<limit>{});
        run(in);
    } else {
        auto in = C::in(s);
        run(in);
    }
    if (ctx.sampling()) ctx.sample("%s input of %zu items, %zu bytes: %s: %s at %zd", C::name, ends.size(), e.size(), what, code_name(expect), (ssize_t)bad);
}

template <typename C, int N, std::size_t I = 0>
void dispatch(eng::Ctx & ctx, std::size_t i)
{
    using V = typename Group<N>::type;
    if constexpr (I < std::variant_size_v<V>) {
        if (i != I) return dispatch<C, N, I + 1>(ctx, i);
        using T = std::variant_alternative_t<I, V>;
        if (ctx.src.flip()) output<C, T>(ctx);
        else input<C, T>(ctx);
    }
}
template <typename C, int N>
void run(eng::Ctx & ctx, const void *)
{
    Forget forget;
    dispatch<C, N>(ctx, ctx.src.below(std::variant_size_v<typename Group<N>::type>));
}
} // namespace c12
#define C12_CONFIG(NAME, GROUP, LIMITED, SWAP, SIZE, ...)                                          \
    struct NAME##GROUP                                                                             \
    {                                                                                              \
        static constexpr model::Cfg cfg{SWAP, SIZE};                                               \
        static constexpr bool limited = LIMITED;                                                   \
        static constexpr const char * name = #NAME;                                                \
        static auto out(auto & b, auto... o) { return zpp::bits::out{b __VA_OPT__(,) __VA_ARGS__, std::move(o)...}; } \
        static auto in(auto & b, auto... o) { return zpp::bits::in{b __VA_OPT__(,) __VA_ARGS__, std::move(o)...}; }   \
    };                                                                                             \
    static eng::Registrar reg_##NAME##GROUP{"errors_" #NAME "_" #GROUP, &c12::run<NAME##GROUP, GROUP>};
using namespace zpp::bits::options;
namespace e = zpp::bits::endian;
