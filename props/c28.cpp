// C28: with zpp::throwing, awaiting an operation is the same as checking its code.
// (Built with the stand-in of ../stubs for the zpp::throwing library.)
#include "items.hpp"
#include "configs.hpp"
#include <memory>

#if !__has_include("zpp_throwing.h")
#error zpp_throwing.h is missing
#endif

namespace c28
{
using items::Item;
using zpp::throwing;
using namespace zpp::bits::literals;

zpp::bits::errc call(auto & archive, Item & it)
{
    return std::visit([&](auto & t) -> zpp::bits::errc { return std::apply([&](auto &... x) -> zpp::bits::errc { return archive(x...); }, t); }, it.v);
}
throwing<int> awaited(auto & archive, std::vector<Item> & items, std::size_t & done)
{
    for (auto & it : items) {
        co_await call(archive, it);
        ++done;
    }
    co_return 7;
}
std::errc checked(auto & archive, std::vector<Item> & items, std::size_t & done)
{
    for (auto & it : items) {
        if (auto r = call(archive, it); failure(r)) return r;
        ++done;
    }
    return {};
}
// runs the coroutine inside another one: the error passes through both
template <typename T> struct Outcome { std::errc code{}; std::optional<T> value; };
template <typename T, typename F> throwing<T> through(F & f)
{
    T x = co_await f();
    co_return std::move(x);
}
template <typename T, typename F> Outcome<T> outcome(F && f, bool nested)
{
    auto r = nested ? through<T>(f) : f();
    if (!r.await_ready()) return {r.code(), {}};
    return {{}, r.await_resume()};
}

template <typename C> void archives(eng::Ctx & ctx)
{
    auto & s = ctx.src;
    model::G g{s};
    g.big = false;
    g.budget = 50;
    if (C::cfg.size == model::SP_1) g.limit(255);
    std::vector<Item> items(1 + s.below(5));
    Bytes want;
    for (auto & it : items) { it = Item::generate(g); auto e = it.enc(C::cfg); want.insert(want.end(), e.begin(), e.end()); }
    bool nested = s.flip();
    {
        auto room = s.flip() ? s.below(want.size() + 1) : want.size() + s.below(3);
        Exact a(Bytes(room, 0xaa)), b(Bytes(room, 0xaa));
        std::span<typename C::byte> va{reinterpret_cast<typename C::byte *>(a.p), a.n}, vb{reinterpret_cast<typename C::byte *>(b.p), b.n};
        auto oa = C::out(va), ob = C::out(vb);
        std::size_t da = 0, db = 0;
        auto code = checked(oa, items, da);
        auto r = outcome<int>([&] { return awaited(ob, items, db); }, nested);
        REQUIRE(r.code == code && da == db, "%zu items and %s with codes, %zu and %s awaited", da, code_name(code), db, code_name(r.code));
        REQUIRE(!r.value || *r.value == 7, "result");
        REQUIRE(bool(r.value) == (code == OK), "result of a failing coroutine");
        REQUIRE(oa.position() == ob.position() && equal_bytes(a.p, b.p, room), "other bytes");
    }
    auto bytes = want;
    if (s.flip()) bytes.resize(s.below(bytes.size() + 1));
    if (s.flip(1, 3) && bytes.size()) bytes[s.below(bytes.size())] ^= (unsigned char)(1u << s.below(8));
    {
        Exact e(bytes);
        std::span<const typename C::byte> v{reinterpret_cast<const typename C::byte *>(e.p), e.n};
        std::vector<Item> ia, ib;
        for (auto & it : items) { ia.push_back(it.blank()); ib.push_back(it.blank()); }
        auto in_a = C::in(v, zpp::bits::alloc_limit<65536>{}), in_b = C::in(v, zpp::bits::alloc_limit<65536>{});
        std::size_t da = 0, db = 0;
        auto code = checked(in_a, ia, da);
        auto r = outcome<int>([&] { return awaited(in_b, ib, db); }, nested);
        REQUIRE(r.code == code && da == db && bool(r.value) == (code == OK), "%zu items and %s with codes, %zu and %s awaited: %s", da, code_name(code), db, code_name(r.code), hex(bytes).c_str());
        REQUIRE(in_a.position() == in_b.position(), "other position");
        for (std::size_t i = 0; i < da; ++i) REQUIRE(ia[i].enc(C::cfg) == ib[i].enc(C::cfg), "item %zu is another one", i);
        ctx.label(code_name(code));
    }
    if (want.size() > 3) ctx.nontrivial();
    if (ctx.sampling()) ctx.sample("archives [%s] %s of %zu bytes", C::name, hex(bytes, 32).c_str(), want.size());
}

// ---------------------------------------------------------------- functions
struct Log { std::vector<std::string> calls; };
inline Log the_log;
void note(const char * f, const std::string & a) { the_log.calls.push_back(std::string(f) + ":" + a); }
std::string text(std::uint32_t x, const std::string & s) { return std::to_string(x) + "/" + hex(Bytes(s.begin(), s.end())); }
std::errc refusal(std::uint32_t x) { return x % 3 ? std::errc{} : x % 2 ? std::errc::bad_address : std::errc::bad_message; }

std::string f_plain(std::uint32_t x, std::string s) { note("plain", text(x, s)); return s + "!"; }
std::unique_ptr<std::uint32_t> f_unique(std::uint32_t x, const std::string & s) { note("unique", text(x, s)); return std::make_unique<std::uint32_t>(x + 1); }
void f_void(std::uint32_t x, std::string && s) { note("void", text(x, s)); }
throwing<std::string> f_throwing(std::uint32_t x, std::string s)
{
    note("throwing", text(x, s));
    if (auto c = refusal(x); c != OK) co_yield c;
    co_return s + "?";
}
throwing<void> f_throwing_void(std::uint32_t x, std::string s)
{
    note("throwing_void", text(x, s));
    if (auto c = refusal(x); c != OK) co_yield c;
}
inline std::uint32_t next; // what functions without parameters go by
throwing<std::string> f_throwing_none()
{
    note("throwing_none", "");
    if (auto c = refusal(next); c != OK) co_yield c;
    co_return std::string(next % 20, 'n');
}
throwing<void> f_throwing_void_none()
{
    note("throwing_void_none", "");
    if (auto c = refusal(next); c != OK) co_yield c;
}
struct Object
{
    std::uint32_t factor = 3;
    std::uint64_t plain(std::uint32_t x, std::string s) { note("member", text(x, s)); return std::uint64_t(x) * factor; }
    throwing<std::uint64_t> throws(std::uint32_t x, std::string s)
    {
        note("member_throwing", text(x, s));
        if (auto c = refusal(x); c != OK) co_yield c;
        co_return std::uint64_t(x) * factor;
    }
};

throwing<std::string> apply_plain(auto & in) { co_return co_await zpp::bits::apply(f_plain, in); }
throwing<std::string> apply_lambda(auto & in)
{
    std::string tag = "l";
    co_return co_await zpp::bits::apply([&](std::uint32_t x, std::string s) { note("lambda", text(x, s)); return tag + s; }, in);
}
throwing<std::string> apply_unique(auto & in) { auto p = co_await zpp::bits::apply(f_unique, in); co_return std::to_string(*p); }
throwing<std::string> apply_unique_lvalue(auto & in)
{
    const auto r = zpp::bits::apply([](std::uint32_t x, const std::string & s) { note("kept", text(x, s)); return std::string(s.rbegin(), s.rend()); }, in);
    auto a = co_await r;
    auto b = co_await r; // a result that is kept may be awaited again
    if (a != b) co_yield std::errc::owner_dead;
    co_return a;
}
throwing<std::string> apply_void(auto & in) { co_await zpp::bits::apply(f_void, in); co_return "void"; }
throwing<std::string> apply_throwing(auto & in) { co_return co_await co_await zpp::bits::apply(f_throwing, in); }
throwing<std::string> apply_throwing_void(auto & in) { co_await co_await zpp::bits::apply(f_throwing_void, in); co_return "done"; }
throwing<std::string> apply_member(auto & in) { Object o; auto x = co_await zpp::bits::apply(o, &Object::plain, in); co_return std::to_string(x); }
throwing<std::string> apply_member_throwing(auto & in) { Object o; auto x = co_await co_await zpp::bits::apply(o, &Object::throws, in); co_return std::to_string(x); }

template <typename C> void functions(eng::Ctx & ctx)
{
    auto & s = ctx.src;
    std::uint32_t x = s.flip() ? (std::uint32_t)s.interesting(32) : s.below(7);
    std::string str(s.small(20), 'a');
    for (auto & c : str) c = char('a' + s.below(26));
    model::Enc e;
    e.cfg = C::cfg;
    e.value(x);
    e.size(str.size(), C::cfg.size);
    e.raw(str.data(), str.size());
    auto bytes = std::move(e.out);
    auto whole = bytes.size();
    if (s.flip(1, 3)) bytes.resize(s.below(bytes.size() + 1));
    bool complete = bytes.size() == whole;
    if (complete) { auto more = random_bytes(s, s.small(4)); bytes.insert(bytes.end(), more.begin(), more.end()); }
    Exact mem(bytes);
    std::span<const typename C::byte> v{reinterpret_cast<const typename C::byte *>(mem.p), mem.n};
    auto in = C::in(v);
    the_log.calls.clear();
    auto kind = s.below(9);
    auto r = outcome<std::string>([&] {
        switch (kind) {
        case 0: return apply_plain(in);
        case 1: return apply_lambda(in);
        case 2: return apply_unique(in);
        case 3: return apply_unique_lvalue(in);
        case 4: return apply_void(in);
        case 5: return apply_throwing(in);
        case 6: return apply_throwing_void(in);
        case 7: return apply_member(in);
        default: return apply_member_throwing(in);
        }
    }, s.flip());
    static constexpr const char * names[] = {"plain", "lambda", "unique", "kept", "void", "throwing", "throwing_void", "member", "member_throwing"};
    bool refuses = kind == 5 || kind == 6 || kind == 8;
    auto code = !complete ? std::errc::result_out_of_range : refuses ? refusal(x) : std::errc{};
    REQUIRE(r.code == code, "%s: %s instead of %s", names[kind], code_name(r.code), code_name(code));
    REQUIRE(the_log.calls.size() == complete, "%s was called %zu times", names[kind], the_log.calls.size());
    if (complete) {
        REQUIRE(the_log.calls[0] == names[kind] + (":" + text(x, str)), "%s: called with %s", names[kind], the_log.calls[0].c_str());
        REQUIRE(in.position() == whole, "%s: position %zu of %zu", names[kind], in.position(), whole);
    }
    REQUIRE(bool(r.value) == (code == OK), "value");
    if (code == OK) {
        std::string want;
        switch (kind) {
        case 0: want = str + "!"; break;
        case 1: want = "l" + str; break;
        case 2: want = std::to_string(x + 1); break;
        case 3: want = std::string(str.rbegin(), str.rend()); break;
        case 4: want = "void"; break;
        case 5: want = str + "?"; break;
        case 6: want = "done"; break;
        default: want = std::to_string(std::uint64_t(x) * 3);
        }
        REQUIRE(*r.value == want, "%s returned %s instead of %s", names[kind], r.value->c_str(), want.c_str());
    }
    ctx.label(names[kind]);
    ctx.label(code_name(code));
    if (whole > 5) ctx.nontrivial();
    if (ctx.sampling()) ctx.sample("apply %s(%s) [%s] -> %s", names[kind], text(x, str).c_str(), C::name, code_name(r.code));
}

// every way of awaiting a result passes its code on, whatever it is
std::string f_codes(const zpp::bits::vuint32_t & x, std::string s) { note("codes", text(x, s)); return s + std::to_string(std::uint32_t(x)); }
throwing<std::string> codes_const(auto & in) { const auto r = zpp::bits::apply(f_codes, in); co_return co_await r; }
throwing<std::string> codes_kept(auto & in) { auto r = zpp::bits::apply(f_codes, in); co_return co_await r; }
throwing<std::string> codes_moved(auto & in) { auto r = zpp::bits::apply(f_codes, in); co_return co_await std::move(r); }
throwing<std::string> codes_at_once(auto & in) { co_return co_await zpp::bits::apply(f_codes, in); }
throwing<std::string> codes_void(auto & in)
{
    co_await zpp::bits::apply([](const zpp::bits::vuint32_t & x, std::string s) { f_codes(x, std::move(s)); }, in);
    co_return "void";
}
throwing<std::string> codes_kept_void(auto & in)
{
    const auto r = zpp::bits::apply([](const zpp::bits::vuint32_t & x, std::string s) { f_codes(x, std::move(s)); }, in);
    co_await r;
    co_return "void";
}

template <typename C> void codes(eng::Ctx & ctx)
{
    auto & s = ctx.src;
    std::uint32_t x = s.flip() ? (std::uint32_t)s.interesting(32) : s.below(7);
    std::string str(s.small(40), 'a');
    for (auto & c : str) c = char('a' + s.below(26));
    bool overlong = s.flip(1, 4);
    model::Enc e;
    e.cfg = C::cfg;
    if (overlong) for (int i = 0; i < 11; ++i) e.byte(0xff);
    else e.varint(x);
    auto first = e.out.size();
    e.size(str.size(), C::cfg.size);
    auto second = e.out.size();
    e.raw(str.data(), str.size());
    auto bytes = std::move(e.out);
    if (s.flip(1, 4)) bytes.resize(s.below(bytes.size() + 1));
    constexpr std::size_t limit = 16;
    std::errc want{};
    if (overlong ? bytes.size() < 10 : bytes.size() < first) want = std::errc::result_out_of_range;
    else if (overlong) want = std::errc::value_too_large;
    else if (bytes.size() < second) want = std::errc::result_out_of_range;
    else if (str.size() > limit) want = std::errc::message_size;
    else if (bytes.size() < second + str.size()) want = std::errc::result_out_of_range;
    if (overlong && bytes.size() < 10) return; // either code is right
    Exact mem(bytes);
    std::span<const typename C::byte> v{reinterpret_cast<const typename C::byte *>(mem.p), mem.n};
    auto in = C::in(v, zpp::bits::alloc_limit<limit>{});
    the_log.calls.clear();
    auto kind = s.below(6);
    auto r = outcome<std::string>([&] {
        switch (kind) {
        case 0: return codes_const(in);
        case 1: return codes_kept(in);
        case 2: return codes_moved(in);
        case 3: return codes_at_once(in);
        case 4: return codes_void(in);
        default: return codes_kept_void(in);
        }
    }, s.flip());
    static constexpr const char * names[] = {"const", "kept", "moved", "at once", "void", "kept void"};
    REQUIRE(r.code == want, "%s: %s instead of %s", names[kind], code_name(r.code), code_name(want));
    REQUIRE(the_log.calls.size() == (want == OK), "called %zu times", the_log.calls.size());
    REQUIRE(bool(r.value) == (want == OK), "value");
    if (want == OK) {
        REQUIRE(the_log.calls[0] == "codes:" + text(x, str), "called with %s", the_log.calls[0].c_str());
        REQUIRE(*r.value == (kind > 3 ? "void" : str + std::to_string(x)), "%s returned %s", names[kind], r.value->c_str());
    }
    ctx.label(code_name(want));
    if (bytes.size() > 3) ctx.nontrivial();
    if (ctx.sampling()) ctx.sample("%s result [%s] -> %s", names[kind], C::name, code_name(want));
}

// ---------------------------------------------------------------- RPC
throwing<std::uint32_t> o_span(std::span<const std::byte> b)
{
    note("span", hex(Bytes(reinterpret_cast<const unsigned char *>(b.data()), reinterpret_cast<const unsigned char *>(b.data()) + b.size())));
    if (auto c = refusal((std::uint32_t)b.size()); c != OK) co_yield c;
    co_return (std::uint32_t)b.size() + 100;
}
template <typename C> struct opaque
{
    using in_t = decltype(C::in(std::declval<std::span<const std::byte> &>()));
};

throwing<int> request(auto & client, unsigned k, std::uint32_t x, const std::string & s)
{
    switch (k) {
    case 0: co_await client.template request<1>(x, s); break;
    case 1: co_await client.template request<2>(x, s); break;
    case 2: co_await client.template request<3>(x, s); break;
    case 3: co_await client.template request<4>(x, s); break;
    case 4: co_await client.template request<5>(); break;
    case 5: co_await client.template request<6>(); break;
    case 6: co_await client.template request<7>(x, s); break;
    default: co_await client.template request<8>(x, s);
    }
    co_return 1;
}
throwing<std::string> response(auto & client, unsigned k)
{
    switch (k) {
    case 0: co_return co_await client.template response<1>();
    case 2: co_return co_await client.template response<3>();
    case 4: co_return co_await client.template response<5>();
    case 6: { auto x = co_await client.template response<7>(); co_return std::to_string(x); }
    case 7: { auto x = co_await client.template response<8>(); co_return std::to_string(x); }
    default: co_return "";
    }
}
throwing<int> serve(auto & server) { co_await server.serve(); co_return 1; }

template <typename C> void rpc(eng::Ctx & ctx)
{
    using zpp::bits::bind;
    using service = zpp::bits::rpc<bind<f_plain, 1>, bind<f_void, 2>, bind<f_throwing, 3>, bind<f_throwing_void, 4>, bind<f_throwing_none, 5>,
        bind<f_throwing_void_none, 6>, bind<&Object::plain, 7>, bind<&Object::throws, 8>>;
    auto & s = ctx.src;
    typename C::container requests, responses;
    auto to_server = C::out(requests), to_client = C::out(responses);
    auto server_in = C::in(requests), client_in = C::in(responses);
    Object object;
    typename service::client client{client_in, to_server};
    typename service::server server{server_in, to_client, object};
    model::Enc sent, answered;
    sent.cfg = answered.cfg = C::cfg;
    std::vector<std::string> want_calls;
    the_log.calls.clear();
    bool nested = s.flip();
    std::string trace;
    static constexpr const char * names[] = {"plain", "void", "throwing", "throwing_void", "throwing_none", "throwing_void_none", "member", "member_throwing"};
    auto steps = 1 + s.below(6);
    unsigned answers = 0;
    for (std::size_t i = 0; i < steps; ++i) {
        auto k = (unsigned)s.below(8);
        std::uint32_t x = s.flip() ? (std::uint32_t)s.interesting(32) : s.below(7);
        std::string str(s.small(9), 'a');
        for (auto & c : str) c = char('a' + s.below(26));
        next = x;
        bool parameters = k != 4 && k != 5, unknown = s.flip(1, 12);
        auto at = sent.out.size();
        sent.value(std::int32_t(k + 1));
        if (parameters) { sent.value(x); sent.size(str.size(), C::cfg.size); sent.raw(str.data(), str.size()); }
        trace += std::string(" ") + names[k];
        auto r = outcome<int>([&] { return request(client, k, x, str); }, nested);
        REQUIRE(r.code == OK, "request: %s [%s]", code_name(r.code), trace.c_str());
        REQUIRE(requests.size() == sent.out.size() && equal_bytes(requests.data(), sent.out.data(), sent.out.size()), "other request bytes [%s]", trace.c_str());
        auto code = OK;
        bool cut = parameters && !unknown && s.flip(1, 12);
        if (unknown) {
            trace += "#unknown";
            code = std::errc::not_supported;
            // in the byte order of the archive, 9 to 255
            std::size_t low = at + (C::cfg.swap ? 3 : 0);
            auto id = 9 + s.below(240);
            requests[low] = (typename C::container::value_type)(unsigned char)id;
        } else if (cut) {
            trace += "#cut";
            code = std::errc::result_out_of_range;
            auto keep = at + s.below(sent.out.size() - at);
            requests.resize(keep);
        }
        // a fresh archive over what there is now
        auto in = C::in(requests);
        in.reset(at);
        typename service::server fresh{in, to_client, object};
        bool own = unknown || cut || s.flip();
        if (!own) server_in.reset(at);
        auto t = outcome<int>([&] { return own ? serve(fresh) : serve(server); }, nested);
        if (!unknown && !cut) {
            want_calls.push_back(std::string(names[k]) + ":" + (parameters ? text(x, str) : std::string{}));
            if (k == 2 || k == 3 || k == 4 || k == 5 || k == 7) code = refusal(x);
        }
        REQUIRE(t.code == code, "serve: %s instead of %s [%s]", code_name(t.code), code_name(code), trace.c_str());
        REQUIRE(the_log.calls == want_calls, "%zu calls, expected %zu, the last is %s [%s]", the_log.calls.size(), want_calls.size(), the_log.calls.empty() ? "" : the_log.calls.back().c_str(), trace.c_str());
        auto before = answered.out.size();
        std::string reply;
        bool replies = code == OK && k != 1 && k != 3 && k != 5;
        if (replies) {
            if (k == 6 || k == 7) { answered.value(std::uint64_t(x) * 3); reply = std::to_string(std::uint64_t(x) * 3); }
            else {
                reply = k == 0 ? str + "!" : k == 2 ? str + "?" : std::string(x % 20, 'n');
                answered.size(reply.size(), C::cfg.size);
                answered.raw(reply.data(), reply.size());
            }
            ++answers;
        }
        REQUIRE(responses.size() == answered.out.size() && equal_bytes(responses.data(), answered.out.data(), answered.out.size()), "other response bytes [%s]", trace.c_str());
        if (replies) {
            auto lost = s.flip(1, 8);
            auto saved = responses;
            if (lost) { auto keep = before + s.below(answered.out.size() - before); responses.resize(keep); }
            auto in2 = C::in(responses);
            in2.reset(before);
            typename service::client fresh_client{in2, to_server};
            auto a = outcome<std::string>([&] { return response(fresh_client, k); }, nested);
            if (lost) REQUIRE(a.code == std::errc::result_out_of_range, "response from lost bytes: %s [%s]", code_name(a.code), trace.c_str());
            else {
                REQUIRE(a.code == OK && *a.value == reply, "response %s: %s instead of %s [%s]", code_name(a.code), a.value ? a.value->c_str() : "", reply.c_str(), trace.c_str());
                REQUIRE(in2.position() == answered.out.size(), "position %zu after the response", in2.position());
            }
            responses = saved;
            to_client.reset(responses.size());
        }
        ctx.label(names[k]);
        ctx.label(code_name(code));
        if (cut) { // go on behind a complete request
            requests.resize(at);
            sent.out.resize(at);
        }
        if (unknown) { sent.out.resize(at); requests.resize(at); }
        to_server.reset(sent.out.size());
    }
    if (steps > 1) ctx.nontrivial();
    if (ctx.sampling()) ctx.sample("rpc [%s]%s: %u answers", C::name, trace.c_str(), answers);
}

// A service of opaque functions, some of which are coroutines.
template <typename In, typename Out> throwing<void> o_in_out(In & in, Out & out)
{
    std::uint32_t x{};
    co_await in(x);
    note("in_out", std::to_string(x));
    if (auto c = refusal(x); c != OK) co_yield c;
    co_await out(x, x);
}
template <typename In> throwing<std::string> o_in(In & in)
{
    std::uint32_t x{};
    co_await in(x);
    note("in", std::to_string(x));
    co_return std::string(x % 9, 'i');
}
template <typename In> void o_void(In & in)
{
    note("nothing", std::to_string(in.position()));
}
template <typename In> zpp::bits::errc o_errc(In & in)
{
    std::uint32_t x{};
    if (auto r = in(x); failure(r)) return r;
    note("errc", std::to_string(x));
    return refusal(x);
}
void opaque_rpc(eng::Ctx & ctx)
{
    using zpp::bits::bind_opaque;
    using In = zpp::bits::in<std::vector<std::byte>>;
    using Out = zpp::bits::out<std::vector<std::byte>>;
    using service = zpp::bits::rpc<bind_opaque<o_in_out<In, Out>, 1>, bind_opaque<o_in<In>, 2>, bind_opaque<o_span, 3>, bind_opaque<o_void<In>, 4>, bind_opaque<o_errc<In>, 5>,
        zpp::bits::bind<f_throwing, 6>>;
    auto & s = ctx.src;
    auto k = (std::int32_t)s.below(7);
    std::uint32_t x = s.flip() ? (std::uint32_t)s.interesting(32) : s.below(7);
    std::string str(s.small(9), 's');
    model::Enc e;
    e.value(std::int32_t(k + 1));
    if (k == 5) { e.value(x); e.size(str.size(), model::SP_4); e.raw(str.data(), str.size()); }
    else if (k == 2) { auto b = random_bytes(s, s.small(9)); e.raw(b.data(), b.size()); }
    else e.value(x);
    bool cut = s.flip(1, 6);
    auto n = e.out.size();
    if (cut) e.out.resize(s.below(e.out.size()));
    std::vector<std::byte> requests(e.out.size()), responses;
    if (requests.size()) std::memcpy(requests.data(), e.out.data(), requests.size());
    In in{requests};
    Out out{responses};
    typename service::server server{in, out};
    the_log.calls.clear();
    auto r = outcome<int>([&] { return serve(server); }, s.flip());
    model::Enc want;
    std::string call;
    auto code = OK;
    auto left = requests.size() < 4 ? 0 : requests.size() - 4;
    if (requests.size() < 4) code = std::errc::result_out_of_range;
    else switch (k) {
    case 0: if (left < 4) code = std::errc::result_out_of_range; else { call = "in_out:" + std::to_string(x); code = refusal(x); if (code == OK) { want.value(x); want.value(x); } } break;
    case 1: if (left < 4) code = std::errc::result_out_of_range; else { call = "in:" + std::to_string(x); want.size(x % 9, model::SP_4); want.raw(std::string(x % 9, 'i').data(), x % 9); } break;
    case 2: call = "span:" + hex(Bytes(e.out.begin() + 4, e.out.end())); code = refusal((std::uint32_t)left); if (code == OK) want.value(std::uint32_t(left + 100)); break;
    case 3: call = "nothing:4"; break;
    case 4: if (left < 4) code = std::errc::result_out_of_range; else { call = "errc:" + std::to_string(x); code = refusal(x); } break;
    case 5: if (e.out.size() < n) code = std::errc::result_out_of_range; else { call = "throwing:" + text(x, str); code = refusal(x); if (code == OK) { auto t = str + "?"; want.size(t.size(), model::SP_4); want.raw(t.data(), t.size()); } } break;
    default: code = std::errc::not_supported;
    }
    REQUIRE(r.code == code, "function %d: %s instead of %s", k + 1, code_name(r.code), code_name(code));
    REQUIRE(the_log.calls.size() == !call.empty() && (call.empty() || the_log.calls[0] == call), "function %d: called as %s, expected %s", k + 1, the_log.calls.empty() ? "nothing" : the_log.calls[0].c_str(), call.c_str());
    REQUIRE(responses.size() == want.out.size() && equal_bytes(responses.data(), want.out.data(), want.out.size()), "function %d: other response", k + 1);
    ctx.label("opaque");
    ctx.label(code_name(code));
    ctx.nontrivial();
    if (ctx.sampling()) ctx.sample("opaque function %d, %zu bytes -> %s", k + 1, e.out.size(), code_name(r.code));
}

template <template <typename> typename F, typename... C> void pick(eng::Ctx & ctx)
{
    auto k = ctx.src.below(sizeof...(C));
    std::size_t i = 0;
    ((i++ == k ? F<C>::run(ctx) : void()), ...);
}
template <typename C> struct Archives { static void run(eng::Ctx & ctx) { archives<C>(ctx); } };
template <typename C> struct Functions { static void run(eng::Ctx & ctx) { functions<C>(ctx); } };
template <typename C> struct Codes { static void run(eng::Ctx & ctx) { codes<C>(ctx); } };
template <typename C> struct Rpc { static void run(eng::Ctx & ctx) { rpc<C>(ctx); } };
} // namespace c28
PROPERTY("archives", 3) { using namespace cfgs; c28::pick<c28::Archives, plain, network, s1, svarint, big_s8>(ctx); }
PROPERTY("apply", 3) { using namespace cfgs; c28::pick<c28::Functions, plain, network, s2, svarint, big_s8>(ctx); }
PROPERTY("codes", 2) { using namespace cfgs; c28::pick<c28::Codes, plain, network, s2, svarint, big_s8>(ctx); }
PROPERTY("rpc", 3) { using namespace cfgs; c28::pick<c28::Rpc, plain, big, s2, svarint, big_s8>(ctx); }
PROPERTY("opaque", 1) { c28::opaque_rpc(ctx); }
