// C18: RPC delivers each request once to the function bound to its id.
#pragma once
#include "common.hpp"
#include "configs.hpp"
#include <deque>

namespace c18
{
using model::Enc;
enum Kind { FUNCTION, IN_OUT, IN, OUT, SPAN, SPAN_REF, NOTHING }; // all but the first: opaque
enum Reply { NO_REPLY, BY_SERVER, BY_FUNCTION };

struct Call
{
    std::size_t function;
    const void * self;
    Bytes args; // model encoding, or the raw bytes for spans
};
struct Log
{
    std::vector<Call> calls;
    std::vector<void *> results;
};
inline Log * log;

template <typename T> struct stored { using type = T; };
template <typename T> struct stored<std::unique_ptr<T>> { using type = T; };
template <> struct stored<void> { using type = std::uint8_t; };
template <typename T> using stored_t = typename stored<T>::type;

template <typename T>
Bytes encoded(const T & v) { Enc e; model::M<T>::enc(v, e); return std::move(e.out); }
template <typename T>
Bytes encoded_as(const T & v, model::Cfg cfg) { Enc e; e.cfg = cfg; model::M<T>::enc(v, e); return std::move(e.out); }

template <typename R, std::size_t K>
R result()
{
    if constexpr (!std::is_void_v<R>) {
        auto & v = *static_cast<const stored_t<R> *>(log->results[K]);
        if constexpr (std::is_same_v<R, stored_t<R>>) return v;
        else return R(new stored_t<R>(v));
    }
}
template <typename R, std::size_t K, typename... A>
R body(const void * self, const A &... a)
{
    Enc e;
    (model::M<A>::enc(a, e), ...);
    log->calls.push_back({K, self, std::move(e.out)});
    return result<R, K>();
}
template <typename Args, typename R, std::size_t K>
zpp::bits::errc read_args(const void * self, auto & in)
{
    Args a = model::M<Args>::fresh();
    if (auto r = in(a); zpp::bits::failure(r)) return r;
    log->calls.push_back({K, self, encoded(a)});
    return {};
}
template <typename Args, typename R, std::size_t K>
zpp::bits::errc in_out_body(const void * self, auto & in, auto & out)
{
    if (auto r = read_args<Args, R, K>(self, in); zpp::bits::failure(r)) return r;
    return out(*static_cast<const R *>(log->results[K]));
}
template <typename R, std::size_t K>
zpp::bits::errc out_body(const void * self, auto & out)
{
    log->calls.push_back({K, self, {}});
    return out(*static_cast<const R *>(log->results[K]));
}
template <typename R, std::size_t K>
R span_body(const void * self, auto & data, bool resize)
{
    std::size_t n = data.size();
    if (resize) {
        n = data.empty() ? 0 : std::min<std::size_t>(n, 1 + std::size_t(static_cast<unsigned char>(data[0])));
        data = data.first(n);
    }
    Bytes b(n);
    if (n) std::memcpy(b.data(), data.data(), n);
    log->calls.push_back({K, self, std::move(b)});
    return result<R, K>();
}

// S: C, in_t, out_t, Obj, functions (tuple of F), id_size, make_client, make_server, serve_unknown, unknown_id(cfg)
// F: kind, reply, args, ret, errc_return, member, hostile, name; id(Enc &), request, request_body, response, serve
template <typename S>
struct Run
{
    using C = typename S::C;
    using Fs = typename S::functions;
    using container = typename C::container;
    static constexpr auto N = std::tuple_size_v<Fs>;
    template <std::size_t K> using F = std::tuple_element_t<K, Fs>;
    template <typename X> struct results_of;
    template <typename... X> struct results_of<std::tuple<X...>> { using type = std::tuple<stored_t<typename X::result>...>; };
    static constexpr std::size_t UNKNOWN = ~std::size_t{0};

    struct Pending { std::size_t k; bool body; Bytes args, raw; std::size_t size; }; // size: bytes on the wire
    struct Reply_ { std::size_t k; Bytes bytes; };

    eng::Ctx & ctx;
    eng::Src & s;
    Log the_log;
    typename results_of<Fs>::type results{};
    typename S::Obj object{}, other{};
    bool shared;
    container requests, responses;
    typename S::in_t server_in, separate_in;
    typename S::in_t & client_in;
    typename S::out_t client_out, separate_out;
    typename S::out_t & server_out;
    std::deque<Pending> queue;
    std::deque<Reply_> replies;
    unsigned served = 0, failed = 0;

    Run(eng::Ctx & ctx, bool shared) :
        ctx(ctx), s(ctx.src), shared(shared),
        server_in(S::open_in(requests)), separate_in(S::open_in(responses)), client_in(shared ? server_in : separate_in),
        client_out(C::out(requests)), separate_out(C::out(responses)), server_out(shared ? client_out : separate_out)
    {
        log = &the_log;
        [&]<std::size_t... I>(std::index_sequence<I...>) { (the_log.results.push_back(&std::get<I>(results)), ...); }(std::make_index_sequence<N>{});
    }
    ~Run() { log = nullptr; }

    static void with(std::size_t k, auto && f)
    {
        [&]<std::size_t... I>(std::index_sequence<I...>) { (void)((I == k && (f(std::integral_constant<std::size_t, I>{}), true)) || ...); }(std::make_index_sequence<N>{});
    }
    static Bytes id_bytes(std::size_t k)
    {
        Enc e;
        e.cfg = C::cfg;
        if (k == UNKNOWN) S::unknown_id(e);
        else with(k, [&](auto i) { F<i>::id(e); });
        return std::move(e.out);
    }
    static Bytes bytes_of(const container & c, std::size_t from, std::size_t to)
    {
        auto p = reinterpret_cast<const unsigned char *>(c.data());
        return Bytes(p + from, p + to);
    }
    static container to_container(const Bytes & b)
    {
        auto p = reinterpret_cast<const typename C::byte *>(b.data());
        return container(p, p + b.size());
    }
    model::G g() { model::G x{s}; x.big = false; x.limit(250); x.budget = 60; return x; }
    template <std::size_t K>
    void new_result()
    {
        if constexpr (F<K>::reply != NO_REPLY) {
            using T = stored_t<typename F<K>::result>;
            T v = model::M<T>::fresh();
            auto gen = g();
            model::M<T>::gen(gen, v);
            std::get<K>(results) = std::move(v);
        }
    }
    // What the server sends for the current result of function K.
    template <std::size_t K>
    Bytes reply_bytes()
    {
        if constexpr (F<K>::reply == NO_REPLY) return {};
        else return encoded_as(std::get<K>(results), C::cfg);
    }


    // The single stream of the shared mode allows one call at a time.
    void request()
    {
        if (shared && (!queue.empty() || !replies.empty())) return;
        auto before = client_out.position();
        REQUIRE(before == requests.size(), "the request archive is at %zu of %zu", before, requests.size());
        if (s.flip(1, 8)) { // an id nothing is bound to
            auto b = id_bytes(UNKNOWN);
            for (auto x : b) REQUIRE(std::errc(client_out(std::uint8_t(x))) == OK, "writing an id");
            queue.push_back({UNKNOWN, false, {}, {}, b.size()});
            return;
        }
        auto k = std::size_t(s.below(N));
        bool body = s.flip(1, 3);
        with(k, [&](auto i) {
            using X = F<i>;
            typename X::args a = model::M<typename X::args>::fresh();
            auto gen = g();
            model::M<typename X::args>::gen(gen, a);
            auto style = unsigned(s.below(4));
            auto client = S::make_client(client_in, client_out);
            std::errc code = body ? X::request_body(client, a, style) : X::request(client, a, style);
            REQUIRE(code == OK, "request%s: %s [%s]", body ? "_body" : "", code_name(code), X::name);
            Bytes expected;
            if (!body) expected = id_bytes(i);
            auto raw = encoded_as(a, C::cfg);
            expected.insert(expected.end(), raw.begin(), raw.end());
            REQUIRE(client_out.position() == requests.size(), "the request archive is at %zu of %zu [%s]", client_out.position(), requests.size(), X::name);
            auto written = bytes_of(requests, before, requests.size());
            REQUIRE(written == expected, "request%s wrote %s, expected %s [%s, style %u]", body ? "_body" : "", hex(written).c_str(), hex(expected).c_str(), X::name, style);
            queue.push_back({i, body, X::kind == SPAN || X::kind == SPAN_REF ? raw : encoded(a), raw, expected.size()});
        });
    }

    std::errc serve_front(const Pending & p, auto & server)
    {
        if (!p.body) return server.serve();
        std::errc code{};
        with(p.k, [&](auto i) { code = F<i>::serve(server); });
        return code;
    }
    void expect_call(std::size_t k, const Bytes & args, const char * name)
    {
        REQUIRE(the_log.calls.size() == 1, "%zu calls instead of one [%s]", the_log.calls.size(), name);
        auto & c = the_log.calls[0];
        REQUIRE(c.function == k, "function %zu was called instead of %zu [%s]", c.function, k, name);
        REQUIRE(c.args == args, "called with %s, expected %s [%s]", hex(c.args).c_str(), hex(args).c_str(), name);
        bool member = false;
        with(k, [&](auto i) { member = F<i>::member; });
        REQUIRE(c.self == (member ? &object : nullptr), "called on another object [%s]", name);
    }

    void serve()
    {
        if (queue.empty()) return;
        auto p = queue.front();
        queue.pop_front();
        auto in_before = server_in.position();
        auto out_before = server_out.position();
        auto & target = shared ? requests : responses;
        Bytes old = bytes_of(target, 0, target.size());
        the_log.calls.clear();
        auto server = S::make_server(server_in, server_out, object);
        if (p.k == UNKNOWN) {
            std::errc code = server.serve();
            REQUIRE(code == std::errc::not_supported, "an unknown id: %s", code_name(code));
            REQUIRE(the_log.calls.empty(), "an unknown id: function %zu was called", the_log.calls[0].function);
            REQUIRE(server_in.position() == in_before + p.size && server_out.position() == out_before && bytes_of(target, 0, target.size()) == old, "an unknown id: archives moved");
            ++failed;
            return;
        }
        with(p.k, [&](auto i) { new_result<i>(); });
        std::errc code = serve_front(p, server);
        with(p.k, [&](auto i) {
            using X = F<i>;
            REQUIRE(code == OK, "serving: %s [%s]", code_name(code), X::name);
            std::size_t size = p.size;
            Bytes args = p.args;
            if (X::kind == SPAN) { // takes everything there is
                auto rest = bytes_of(requests, in_before, in_before + p.size);
                rest.erase(rest.begin(), rest.end() - p.raw.size());
                size = old.size() - in_before;
                if (!shared) size = requests.size() - in_before;
                if (!shared) args = bytes_of(requests, in_before + p.size - p.raw.size(), requests.size());
                queue.clear();
            }
            expect_call(i, args, X::name);
            REQUIRE(server_in.position() == in_before + size, "serving moved the input to %zu, expected %zu [%s]", server_in.position(), in_before + size, X::name);
            auto reply = reply_bytes<i>();
            auto now = bytes_of(target, 0, target.size());
            REQUIRE(now.size() >= old.size() && equal_bytes(now.data(), old.data(), old.size()), "serving changed bytes before its response [%s]", X::name);
            Bytes written(now.begin() + old.size(), now.end());
            REQUIRE(server_out.position() == now.size() && written == reply, "response %s, expected %s [%s]", hex(written).c_str(), hex(reply).c_str(), X::name);
            replies.push_back({i, reply});
        });
        ++served;
    }

    void check_response(auto i, auto & client, const Bytes & bytes)
    {
        using X = F<i>;
        if constexpr (X::reply == BY_SERVER) {
            auto r = X::response(client);
            REQUIRE(zpp::bits::success(r), "response: %s [%s]", code_name(std::errc(r.error())), X::name);
            auto got = encoded_as(r.value(), C::cfg);
            REQUIRE(got == bytes, "the client received %s, the function returned %s [%s]", hex(got).c_str(), hex(bytes).c_str(), X::name);
        } else if constexpr (X::reply == NO_REPLY) {
            if constexpr (std::is_void_v<typename X::ret>) X::response(client);
        }
    }
    void response()
    {
        if (replies.empty()) return;
        auto r = std::move(replies.front());
        replies.pop_front();
        auto & in = client_in;
        auto before = in.position();
        with(r.k, [&](auto i) {
            using X = F<i>;
            auto client = S::make_client(in, client_out);
            auto out_before = client_out.position();
            check_response(i, client, r.bytes);
            REQUIRE(client_out.position() == out_before, "reading a response moved the output [%s]", X::name);
            if constexpr (X::reply == BY_FUNCTION) {
                using T = stored_t<typename X::result>;
                T v = model::M<T>::fresh();
                std::errc code = in(v);
                REQUIRE(code == OK && encoded_as(v, C::cfg) == r.bytes, "reading the reply of an opaque function: %s [%s]", code_name(code), X::name);
            }
            REQUIRE(in.position() == before + r.bytes.size(), "response moved the input to %zu, expected %zu [%s]", in.position(), before + r.bytes.size(), X::name);
        });
        // every strict prefix is an error
        with(r.k, [&](auto i) {
            using X = F<i>;
            if constexpr (X::reply == BY_SERVER) {
                for (unsigned n = 0; n < 4 && !r.bytes.empty(); ++n) {
                    Bytes b = r.bytes;
                    bool cut = !X::result_hostile || n < 2;
                    if (cut) b.resize(s.below(b.size()));
                    else b[s.below(b.size())] ^= static_cast<unsigned char>(1 + s.below(255));
                    auto c = to_container(b), unused = container{};
                    auto in1 = S::open_in(c), in2 = S::open_in(c);
                    auto out = C::out(unused);
                    auto client = S::make_client(in1, out);
                    using R = typename X::ret;
                    R v = model::M<R>::fresh();
                    std::errc code = in2(v);
                    auto got = X::response(client);
                    if (cut) REQUIRE(code == std::errc::result_out_of_range, "a strict prefix of a response decodes [%s]", X::name);
                    REQUIRE(zpp::bits::failure(got) == (code != OK), "a damaged response: %s, reading the value alone: %s [%s]", zpp::bits::failure(got) ? "failure" : "success", code_name(code), X::name);
                    if (code != OK) REQUIRE(std::errc(got.error()) == code, "a damaged response: %s, expected %s [%s]", code_name(std::errc(got.error())), code_name(code), X::name);
                    else REQUIRE(encoded(got.value()) == encoded(v), "a damaged response: other value [%s]", X::name);
                    REQUIRE(in1.position() == in2.position(), "a damaged response: position %zu, expected %zu [%s]", in1.position(), in2.position(), X::name);
                    ++failed;
                }
            }
        });
    }

    // Serves a damaged copy of the next request.
    void damaged()
    {
        if (queue.empty() || queue.front().k == UNKNOWN) return;
        auto & p = queue.front();
        auto from = server_in.position();
        Bytes b = bytes_of(requests, from, from + p.size);
        if (b.empty()) return;
        auto id_size = p.body ? 0 : S::id_size;
        bool cut = !S::hostile || s.flip();
        if (cut) {
            b.resize(s.below(b.size()));
        } else {
            for (auto n = 1 + s.below(2); n--;) {
                auto where = s.flip() && id_size ? s.below(id_size) : s.below(b.size());
                b[where] ^= s.flip() ? static_cast<unsigned char>(1u << s.below(8)) : static_cast<unsigned char>(1 + s.below(255));
            }
        }
        // which function is meant now
        std::size_t k = p.k;
        std::errc code = OK;
        if (!p.body) {
            if (b.size() < id_size) code = std::errc::result_out_of_range;
            else {
                k = UNKNOWN;
                for (std::size_t j = 0; j < N; ++j) if (equal_bytes(id_bytes(j).data(), b.data(), id_size)) k = j;
                if (k == UNKNOWN) code = std::errc::not_supported;
            }
        }
        auto c = to_container(b);
        container answer;
        auto in1 = S::open_in(c), in2 = S::open_in(c);
        auto out = C::out(answer);
        Bytes args;
        bool known_args = true;
        std::size_t position = code == std::errc::not_supported ? id_size : 0;
        if (code == OK) {
            with(k, [&](auto i) {
                using X = F<i>;
                new_result<i>();
                in2.reset(id_size);
                if (X::kind == SPAN || X::kind == SPAN_REF || (X::kind != FUNCTION && !X::errc_return)) { known_args = false; return; } // handle damage themselves
                typename X::args a = model::M<typename X::args>::fresh();
                code = in2(a);
                args = encoded(a);
                position = in2.position();
            });
        }
        if (!known_args) return;
        the_log.calls.clear();
        auto server = S::make_server(in1, out, object);
        std::errc got = serve_front(p, server);
        REQUIRE(got == code, "a %s request: %s, expected %s", cut ? "cut" : "corrupted", code_name(got), code_name(code));
        if (code == OK) {
            with(k, [&](auto i) {
                expect_call(i, args, F<i>::name);
                auto reply = reply_bytes<i>();
                REQUIRE(bytes_of(answer, 0, answer.size()) == reply, "a corrupted request of other arguments: response %s, expected %s [%s]", hex(answer.data(), answer.size()).c_str(), hex(reply).c_str(), F<i>::name);
            });
        } else {
            REQUIRE(the_log.calls.empty(), "a %s request called function %zu", cut ? "cut" : "corrupted", the_log.calls[0].function);
            REQUIRE(answer.empty() && out.position() == 0, "a %s request was answered with %zu bytes", cut ? "cut" : "corrupted", answer.size());
        }
        if (b.size() >= id_size) REQUIRE(in1.position() == position, "a %s request: position %zu, expected %zu", cut ? "cut" : "corrupted", in1.position(), position);
        ++failed;
    }

    // Serves the next request with too little room for its response.
    void no_room()
    {
        if constexpr (!S::any_opaque) {
            if (queue.empty() || queue.front().k == UNKNOWN) return;
            auto & p = queue.front();
            with(p.k, [&](auto i) {
                new_result<i>();
                auto reply = reply_bytes<i>();
                if (reply.empty()) return;
                auto room = s.below(reply.size() + 2);
                Exact memory{room};
                auto from = server_in.position();
                auto c = to_container(bytes_of(requests, from, from + p.size));
                auto in = S::open_in(c);
                std::span<typename C::byte> view{reinterpret_cast<typename C::byte *>(memory.p), memory.n};
                auto out = C::out(view);
                the_log.calls.clear();
                auto server = S::make_server(in, out, object);
                std::errc code = serve_front(p, server);
                expect_call(i, p.args, F<i>::name);
                if (room >= reply.size()) REQUIRE(code == OK && out.position() == reply.size() && equal_bytes(memory.p, reply.data(), reply.size()), "response into %zu bytes: %s [%s]", room, code_name(code), F<i>::name);
                else REQUIRE(code == std::errc::result_out_of_range, "a response of %zu bytes into %zu: %s [%s]", reply.size(), room, code_name(code), F<i>::name);
                ++failed;
            });
        }
    }
    // An unknown id that is passed aside.
    void unknown_aside()
    {
        auto in_before = server_in.position(), out_before = server_out.position();
        the_log.calls.clear();
        auto server = S::make_server(server_in, server_out, object);
        std::errc code = S::serve_unknown(server);
        REQUIRE(code == std::errc::not_supported && the_log.calls.empty() && server_in.position() == in_before && server_out.position() == out_before, "serving an unknown id: %s, %zu calls",
            code_name(code), the_log.calls.size());
        ++failed;
    }
};

template <typename S>
void run(eng::Ctx & ctx, const void *)
{
    auto & s = ctx.src;
    bool shared = s.flip();
    Run<S> r{ctx, shared};
    auto steps = 3 + s.below(12);
    for (std::uint64_t i = 0; i < steps; ++i) {
        switch (s.below(shared ? 8 : 10)) {
        case 0: case 1: r.request(); break;
        case 2: case 3: r.serve(); break;
        case 4: r.response(); break;
        case 5: r.damaged(); break;
        case 6: r.no_room(); break;
        case 7: r.unknown_aside(); break;
        default: r.request(); break;
        }
    }
    while (!r.queue.empty()) { r.serve(); if (shared) r.response(); }
    while (!r.replies.empty()) r.response();
    REQUIRE(r.server_in.position() == r.requests.size(), "%zu of %zu request bytes were served", r.server_in.position(), r.requests.size());
    ctx.label(shared ? "shared archives" : "separate archives");
    if (r.served > 1) ctx.label("several calls");
    if (r.failed) ctx.label("failed calls");
    if (r.served + r.failed > 1) ctx.nontrivial();
    if (ctx.sampling()) ctx.sample("%s: %u calls served, %u failed or damaged", S::name, r.served, r.failed);
}
} // namespace c18
