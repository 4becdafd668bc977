// C29: applied functions, functions behind remote calls and protocol messages: their exceptions, and exhausted memory in between.
#include "common.hpp"
#include "configs.hpp"
#include <map>
#include <memory>
#include <optional>

namespace c29f
{
using namespace zpp::bits::literals;
inline long live;
struct item // counts its objects
{
    using serialize = zpp::bits::members<2>;
    std::string s;
    std::unique_ptr<std::uint16_t> p = std::make_unique<std::uint16_t>();
    item() { ++live; }
    item(item && o) : s(std::move(o.s)), p(std::move(o.p)) { ++live; }
    item & operator=(item &&) = default;
    ~item() { --live; }
};
struct point { zpp::bits::vint32_t x; std::string name; auto operator<=>(const point &) const = default; };
auto serialize(const point &) -> zpp::bits::pb_protocol;
struct message
{
    using serialize = zpp::bits::pb_protocol;
    std::string s;
    std::map<std::string, point> points;
    std::vector<point> list;
    std::vector<zpp::bits::vuint32_t> numbers;
    std::vector<std::string> strings;
    bool operator==(const message &) const = default;
};
struct thrown { std::uint32_t value; };
inline bool throwing_now;
inline std::size_t calls;
inline void visit(std::uint32_t x)
{
    ++calls;
    if (throwing_now) throw thrown{x};
}
inline std::string text(eng::Src & s) { return std::string(s.small(40), char('a' + s.below(26))); }
inline message generate(eng::Src & s)
{
    message m;
    m.s = text(s);
    for (auto n = s.small(4); n--;) { auto k = text(s); auto x = std::int32_t(s.bits()); m.points[k] = {x, text(s)}; }
    for (auto n = s.small(4); n--;) { auto x = std::int32_t(s.bits()); m.list.push_back({x, text(s)}); }
    for (auto n = s.small(6); n--;) m.numbers.push_back(std::uint32_t(s.interesting(32)));
    for (auto n = s.small(4); n--;) m.strings.push_back(text(s));
    return m;
}

// What functions return and take.
inline std::string f_text(std::uint32_t x, item a, std::string b) { visit(x); return a.s + b; }
inline item f_item(std::uint32_t x, const std::vector<item> & v, const message & m) { visit(x); item r; r.s = m.s; *r.p = std::uint16_t(v.size()); return r; }
inline void f_void(std::uint32_t x, item && a) { visit(x); item taken = std::move(a); }
inline message f_message(std::uint32_t x, message m) { visit(x); return m; }
struct Object
{
    std::string prefix = "object of many letters, ";
    std::string member(std::uint32_t x, item a, std::map<std::string, std::string> m) { visit(x); return prefix + a.s + std::to_string(m.size()); }
};
using rpc = zpp::bits::rpc<zpp::bits::bind<&f_text, 1>, zpp::bits::bind<&f_item, "item"_sha256_int>, zpp::bits::bind<&f_void, 3>, zpp::bits::bind<&f_message, 4>,
                           zpp::bits::bind<&Object::member, 5>>;
constexpr auto item_id = "item"_sha256_int;

// One set of arguments for every function.
struct Args
{
    std::uint32_t x;
    item a;
    std::string b;
    std::vector<item> v;
    message m;
    std::map<std::string, std::string> d;
    explicit Args(eng::Src & s)
    {
        x = std::uint32_t(s.bits());
        a.s = text(s);
        *a.p = std::uint16_t(s.bits());
        b = text(s);
        for (auto n = s.small(4); n--;) { v.emplace_back(); v.back().s = text(s); }
        m = generate(s);
        for (auto n = s.small(4); n--;) { auto k = text(s); d[k] = text(s); }
    }
};
enum how { NORMAL, THROWN, MEMORY };
struct Result { how h = NORMAL; std::errc code{}; std::string text; std::size_t requests = 0; };

// Runs f, with the fail_at-th request of memory failing.
Result run(std::size_t fail_at, auto && f)
{
    constexpr std::size_t never = std::size_t{1} << 60;
    Result r;
    eng::alloc_fail_in = fail_at ? fail_at : never;
    try {
        r.code = f(r);
    } catch (const std::bad_alloc &) {
        r.h = MEMORY;
    } catch (const thrown & t) {
        r.h = THROWN;
        eng::alloc_fail_in = 0;
        r.text = std::to_string(t.value);
    }
    if (!fail_at) r.requests = never - eng::alloc_fail_in;
    eng::alloc_fail_in = 0;
    return r;
}
constexpr std::size_t kinds = 5;
constexpr const char * names[kinds] = {"text", "item", "void", "message", "member"};

template <typename C>
std::errc arguments(auto & out, std::size_t kind, const Args & a)
{
    switch (kind) {
    case 0: return out(a.x, a.a, a.b);
    case 1: return out(a.x, a.v, a.m);
    case 2: return out(a.x, a.a);
    case 3: return out(a.x, a.m);
    default: return out(a.x, a.a, a.d);
    }
}
// the result of the call, as text
inline std::string expected(std::size_t kind, const Args & a)
{
    switch (kind) {
    case 0: return a.a.s + a.b;
    case 1: return a.m.s + "/" + std::to_string(a.v.size());
    case 2: return "";
    case 3: return a.m.s;
    default: return "object of many letters, " + a.a.s + std::to_string(a.d.size());
    }
}
std::errc taken(auto && r, std::string & text)
{
    if (failure(r)) return r.error();
    auto x = std::move(r).value();
    if constexpr (std::is_same_v<decltype(x), std::string>) text = std::move(x);
    else if constexpr (std::is_same_v<decltype(x), message>) text = std::move(x.s);
    else { text = x.s + "/"; text += std::to_string(*x.p); }
    return {};
}
std::errc apply_one(auto & in, std::size_t kind, std::string & text)
{
    using zpp::bits::apply;
    Object o;
    switch (kind) {
    case 0: return taken(apply(f_text, in), text);
    case 1: return taken(apply([](std::uint32_t x, const std::vector<item> & v, const message & m) { return f_item(x, v, m); }, in), text);
    case 2: return apply(f_void, in);
    case 3: return taken(apply(&f_message, in), text);
    default: return taken(apply(o, &Object::member, in), text);
    }
}

template <typename C> void functions(eng::Ctx & ctx)
{
    auto & s = ctx.src;
    auto before = live;
    {
        Args args(s);
        auto kind = s.below(kinds);
        typename C::container data;
        auto out = C::out(data);
        REQUIRE(arguments<C>(out, kind, args) == OK, "writing arguments");
        auto in = C::in(std::as_const(data));
        auto held = live;
        auto attempt = [&](std::size_t fail_at) {
            in.reset();
            calls = 0;
            auto r = run(fail_at, [&](Result & r) { return apply_one(in, kind, r.text); });
            REQUIRE(live == held, "%s: %ld objects are left behind", names[kind], live - held);
            REQUIRE(in.position() <= data.size(), "position");
            return r;
        };
        auto good = [&](const Result & r) {
            REQUIRE(r.h == NORMAL && r.code == OK && calls == 1 && in.position() == data.size(), "%s: %s, %zu calls", names[kind], code_name(r.code), calls);
            REQUIRE(r.text == expected(kind, args), "%s returned %s instead of %s", names[kind], r.text.c_str(), expected(kind, args).c_str());
        };
        throwing_now = false;
        auto r = attempt(0);
        good(r);
        auto requests = r.requests;
        throwing_now = true;
        r = attempt(0);
        REQUIRE(r.h == THROWN && r.text == std::to_string(args.x) && calls == 1, "%s: its exception did not come out", names[kind]);
        REQUIRE(in.position() == data.size(), "%s: its arguments end at %zu of %zu", names[kind], std::size_t(in.position()), data.size());
        throwing_now = false;
        if (requests) {
            for (auto n = 1 + s.below(4); n--;) {
                auto at = 1 + s.below(requests);
                r = attempt(at);
                REQUIRE(r.h == MEMORY, "%s: request %zu of %zu failed and no exception came out", names[kind], std::size_t(at), requests);
            }
        }
        good(attempt(0));
        ctx.label(names[kind]);
        ctx.nontrivial();
        if (ctx.sampling()) ctx.sample("apply %s [%s]: %zu bytes, %zu requests of memory", names[kind], C::name, data.size(), requests);
    }
    REQUIRE(live == before, "%ld objects are left behind", live - before);
}

// A history of requests of which some fail by exceptions; the others are answered as ever.
template <typename C> void history(eng::Ctx & ctx)
{
    auto & s = ctx.src;
    auto before = live;
    {
        typename C::container requests, answers;
        auto to_server = C::out(requests);
        auto at_server = C::in(requests);
        auto from_server = C::out(answers);
        auto at_client = C::in(answers);
        Object object;
        typename rpc::client client{at_client, to_server};
        typename rpc::server server{at_server, from_server, object};
        auto n = 1 + s.below(6);
        std::size_t failures = 0;
        for (std::size_t i = 0; i < n; ++i) {
            Args args(s);
            auto kind = s.below(kinds);
            auto h = s.below(3);
            std::errc q{};
            switch (kind) {
            case 0: q = client.template request<1>(args.x, args.a, args.b); break;
            case 1: q = client.template request<item_id>(args.x, args.v, args.m); break;
            case 2: q = client.template request<3>(args.x, args.a); break;
            case 3: q = client.template request<4>(args.x, args.m); break;
            default: q = client.template request<5>(args.x, args.a, args.d);
            }
            REQUIRE(q == OK, "request of %s: %s", names[kind], code_name(q));
            auto held = live;
            std::size_t from = at_server.position(), answered = from_server.position();
            calls = 0;
            auto serve = [&](std::size_t fail_at) {
                auto r = run(fail_at, [&](Result &) { return std::errc(server.serve()); });
                REQUIRE(live == held, "%s: %ld objects are left behind", names[kind], live - held);
                REQUIRE(at_server.position() >= from && at_server.position() <= requests.size() && from_server.position() <= answers.size(), "position");
                return r;
            };
            if (h == THROWN) {
                throwing_now = true;
                auto r = serve(0);
                throwing_now = false;
                REQUIRE(r.h == THROWN && r.text == std::to_string(args.x) && calls == 1, "%s: its exception did not come out", names[kind]);
                REQUIRE(from_server.position() == answered, "%s: an answer was written for a function that threw", names[kind]);
                REQUIRE(at_server.position() == requests.size(), "%s: the request ends at %zu of %zu", names[kind], std::size_t(at_server.position()), requests.size());
                ++failures;
                if (s.flip()) continue; // no answer
                at_server.position() = from; // or once more
            } else if (h == MEMORY) {
                auto at = 1 + s.below(12);
                auto r = serve(at);
                if (r.h == MEMORY) {
                    ++failures;
                    at_server.position() = from;
                    from_server.position() = answered; // parts of an answer may have been written
                } else { // fewer requests
                    REQUIRE(r.h == NORMAL && r.code == OK && calls == 1, "%s: %s", names[kind], code_name(r.code));
                    goto answer;
                }
            }
            {
                calls = 0;
                auto r = serve(0);
                REQUIRE(r.h == NORMAL && r.code == OK && calls == 1, "%s: %s, %zu calls", names[kind], code_name(r.code), calls);
            }
        answer:
            std::string got;
            std::errc c{};
            std::size_t start = at_client.position();
            auto want = expected(kind, args);
            auto respond = [&](std::size_t fail_at) {
                return run(fail_at, [&](Result & r) -> std::errc {
                    switch (kind) {
                    case 0: return taken(client.template response<1>(), r.text);
                    case 1: return taken(client.template response<item_id>(), r.text);
                    case 2: return {};
                    case 3: return taken(client.template response<4>(), r.text);
                    default: return taken(client.template response<5>(), r.text);
                    }
                });
            };
            if (s.flip(1, 3)) {
                auto r = respond(1 + s.below(3));
                REQUIRE(live == held, "%s: %ld objects are left behind by its response", names[kind], live - held);
                if (r.h == MEMORY) ++failures;
                at_client.position() = start;
            }
            auto r = respond(0);
            REQUIRE(r.h == NORMAL && r.code == OK && r.text == want, "%s answered %s (%s) instead of %s", names[kind], r.text.c_str(), code_name(r.code), want.c_str());
            REQUIRE(at_client.position() == answers.size() || from_server.position() < answers.size(), "the answer ends at %zu of %zu", std::size_t(at_client.position()), answers.size());
            REQUIRE(at_client.position() == from_server.position(), "%s: the answer ends at %zu, %zu were written", names[kind], std::size_t(at_client.position()), std::size_t(from_server.position()));
            REQUIRE(live == held, "objects are left behind");
        }
        if (failures) ctx.nontrivial();
        ctx.label(failures ? "RPC with exceptions" : "RPC");
        if (ctx.sampling()) ctx.sample("%zu requests, %zu exceptions [%s]", std::size_t(n), failures, C::name);
    }
    REQUIRE(live == before, "%ld objects are left behind", live - before);
}

// Protocol messages: exhausted memory while they are written and read.
template <typename C> void messages(eng::Ctx & ctx)
{
    auto & s = ctx.src;
    auto m = generate(s);
    typename C::container data;
    auto out = C::out(data);
    auto w = run(0, [&](Result &) { return std::errc(out(m)); });
    REQUIRE(w.code == OK, "writing: %s", code_name(w.code));
    if (w.requests) {
        typename C::container other;
        auto again = C::out(other);
        auto r = run(1 + s.below(w.requests), [&](Result &) { return std::errc(again(m)); });
        REQUIRE(r.h == MEMORY, "a request failed and no exception came out of writing");
        REQUIRE(again.position() <= other.size(), "position");
        again.reset();
        r = run(0, [&](Result &) { return std::errc(again(m)); });
        REQUIRE(r.code == OK && other.size() >= data.size() && equal_bytes(other.data(), data.data(), data.size()), "written again: other bytes");
    }
    auto in = C::in(data);
    auto target = std::make_unique<message>();
    auto r = run(0, [&](Result &) { return std::errc(in(*target)); });
    REQUIRE(r.code == OK && *target == m, "another message is read: %s", code_name(r.code));
    auto requests = r.requests;
    if (requests) {
        if (s.flip()) target = std::make_unique<message>();
        for (auto n = 1 + s.below(4); n--;) {
            bool fresh = s.flip();
            if (fresh) target = std::make_unique<message>();
            in.reset();
            r = run(1 + s.below(requests), [&](Result &) { return std::errc(in(*target)); });
            REQUIRE(r.h == MEMORY || !fresh, "a request failed and no exception came out of reading");
            REQUIRE(in.position() <= data.size(), "position");
        }
        in.reset();
        r = run(0, [&](Result &) { return std::errc(in(*target)); });
        REQUIRE(r.code == OK && *target == m, "read again: %s", code_name(r.code));
        ctx.nontrivial();
    }
    ctx.label("messages");
    if (ctx.sampling()) ctx.sample("a message of %zu bytes [%s], %zu requests of memory", data.size(), C::name, requests);
}
template <template <typename> typename F, typename... C>
void pick(eng::Ctx & ctx)
{
    auto k = ctx.src.below(sizeof...(C));
    std::size_t i = 0;
    ((i++ == k ? F<C>::run(ctx) : void()), ...);
}
struct Reset { ~Reset() { throwing_now = false; eng::alloc_fail_in = 0; live = 0; } };
template <typename C> struct Functions { static void run(eng::Ctx & ctx) { Reset r; functions<C>(ctx); } };
template <typename C> struct History { static void run(eng::Ctx & ctx) { Reset r; history<C>(ctx); } };
template <typename C> struct Messages { static void run(eng::Ctx & ctx) { Reset r; messages<C>(ctx); } };
} // namespace c29f
PROPERTY("functions", 12) { using namespace cfgs; c29f::pick<c29f::Functions, plain, big_s2, svarint>(ctx); }
PROPERTY("history", 12) { using namespace cfgs; c29f::pick<c29f::History, plain, big_s2, svarint>(ctx); }
PROPERTY("messages", 12) { using namespace cfgs; c29f::pick<c29f::Messages, plain, big_s2, svarint>(ctx); }
