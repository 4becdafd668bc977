// C17: applying a function calls it once with the deserialized arguments.
#pragma once
#include "common.hpp"
#include "configs.hpp"
#include <functional>
#include <system_error>

namespace c17
{
struct Log
{
    unsigned calls = 0;
    Bytes args;                      // model encoding of the arguments of the last call
    const void * self = nullptr;     // the object it was called on
    const void * expected_self = nullptr;
    void * result = nullptr;         // what to return
    bool throws = false;
    unsigned extra = 0;              // calls seen by the callable's own state
    bool count_extra = false;
};
using model::Enc;
inline Log * log;

template <typename T>
void enc_one(const T & v, Enc & e) { model::M<T>::enc(v, e); }

template <typename T>
Bytes encoded(const T & v) { Enc e; enc_one(v, e); return std::move(e.out); }
inline std::uint64_t digest(const Bytes & b) { return eng::hash_bytes(b.data(), b.size()); }

struct nd // not default constructible, move only
{
    explicit nd(std::uint64_t v) : p(std::make_unique<std::uint64_t>(v)) {}
    std::unique_ptr<std::uint64_t> p;
};
using uptr = std::unique_ptr<std::uint64_t>;

template <typename R, typename... A>
R body(const void * self, const A &... a)
{
    ++log->calls;
    log->self = self;
    Enc e;
    (enc_one(a, e), ...);
    log->args = std::move(e.out);
    if (log->throws) throw 42;
    if constexpr (std::is_void_v<R>) {
        return;
    } else if constexpr (std::is_reference_v<R>) {
        return static_cast<R>(*static_cast<std::remove_reference_t<R> *>(log->result));
    } else if constexpr (std::is_same_v<R, uptr>) {
        return std::make_unique<std::uint64_t>(digest(log->args));
    } else if constexpr (std::is_same_v<R, nd>) {
        return nd{digest(log->args)};
    } else {
        return *static_cast<const R *>(log->result);
    }
}

// Reads the items one by one; returns how many were read.
template <typename... T>
std::size_t read_each(auto & in, std::tuple<T...> & t, std::errc & code)
{
    std::size_t n = 0;
    code = OK;
    std::apply([&](auto &... x) {
        (void)(... && [&](auto & item) {
            code = in(item);
            n += code == OK;
            return code == OK;
        }(x));
    }, t);
    return n;
}

template <typename R> struct stored { using type = std::remove_cvref_t<R>; };
template <> struct stored<void> { using type = int; };
template <> struct stored<uptr> { using type = int; };
template <> struct stored<nd> { using type = int; };

// F: call(in), args, ret, can_throw, hostile, limited, name
template <typename F, typename C>
void run(eng::Ctx & ctx, const void *)
{
    using Args = typename F::args;
    using R = typename F::ret;
    constexpr auto n_args = std::tuple_size_v<Args>;
    using MA = model::M<Args>;
    auto & s = ctx.src;
    Log the_log;
    log = &the_log;
    struct Reset { ~Reset() { log = nullptr; } } reset;

    Args value = MA::fresh();
    model::G g{s};
    g.big = false;
    g.limit(255);
    g.budget = 80;
    MA::gen(g, value);
    typename stored<R>::type result{};
    if constexpr (requires { model::M<typename stored<R>::type>::gen(g, result); }) model::M<typename stored<R>::type>::gen(g, result);
    the_log.result = &result;
    Enc e;
    e.cfg = C::cfg;
    std::apply([&](auto &... x) { (enc_one(x, e), ...); }, value);
    auto before = s.below(4), after = s.below(4);
    Bytes data = random_bytes(s, before);
    data.insert(data.end(), e.out.begin(), e.out.end());
    auto end = data.size();
    auto mode = s.below(6);
    const char * what = "complete";
    if (mode == 4 && !e.out.empty()) {
        what = "truncated";
        data.resize(before + s.below(e.out.size()));
    } else if (mode == 5 && F::hostile && !e.out.empty()) {
        what = "corrupted";
        for (auto k = 1 + s.below(3); k--;) data[before + s.below(e.out.size())] ^= static_cast<unsigned char>(1 + s.below(255));
        auto tail = random_bytes(s, after);
        data.insert(data.end(), tail.begin(), tail.end());
    } else {
        auto tail = random_bytes(s, after);
        data.insert(data.end(), tail.begin(), tail.end());
    }
    Exact memory{data};
    using byte = typename C::byte;
    std::span<const byte> view{reinterpret_cast<const byte *>(memory.p), memory.n};
    auto open = [&] {
        if constexpr (F::limited) return C::in(view, zpp::bits::alloc_limit<ops::hostile_limit>{});
        else return C::in(view);
    };

    // The reference: the arguments one by one.
    Args reference = MA::fresh();
    auto in1 = open();
    in1.reset(before);
    std::errc code;
    read_each(in1, reference, code);
    if (!std::strcmp(what, "complete")) {
        REQUIRE(code == OK && in1.position() == end, "reading the arguments one by one: %s at %zu of %zu [%s]", code_name(code), in1.position(), end, F::name);
        REQUIRE(MA::eq(reference, value), "reading the arguments one by one: other values [%s]", F::name);
    }
    Bytes expected;
    {
        Enc x;
        std::apply([&](auto &... v) { (enc_one(v, x), ...); }, reference);
        expected = std::move(x.out);
    }

    auto in2 = open();
    in2.reset(before);
    the_log.throws = F::can_throw && s.flip(1, 16);
    bool threw = false;
    auto verify_called = [&] {
        REQUIRE(the_log.calls == 1, "called %u times [%s]", the_log.calls, F::name);
        REQUIRE(the_log.args == expected, "called with %s, expected %s [%s]", hex(the_log.args).c_str(), hex(expected).c_str(), F::name);
        REQUIRE(the_log.self == the_log.expected_self, "called on another object [%s]", F::name);
        REQUIRE(!the_log.count_extra || the_log.extra == 1, "the callable's state says it was called %u times [%s]", the_log.extra, F::name);
        REQUIRE(in2.position() == in1.position(), "position %zu, expected %zu [%s]", in2.position(), in1.position(), F::name);
    };
    try {
        if constexpr (n_args == 0) {
            if constexpr (std::is_void_v<R>) {
                F::call(in2);
                verify_called();
            } else {
                auto && r = F::call(in2);
                verify_called();
                if constexpr (std::is_same_v<R, uptr>) REQUIRE(r && *r == digest(expected), "other result [%s]", F::name);
                else if constexpr (std::is_same_v<R, nd>) REQUIRE(r.p && *r.p == digest(expected), "other result [%s]", F::name);
                else REQUIRE(encoded(r) == encoded(result), "other result [%s]", F::name);
            }
        } else if constexpr (std::is_void_v<R>) {
            auto r = F::call(in2);
            std::errc c = r;
            REQUIRE(zpp::bits::success(r) == (c == OK) && zpp::bits::failure(r) == (c != OK), "success() and failure() disagree with the code [%s]", F::name);
            REQUIRE(c == code, "%s, expected %s [%s, %s]", code_name(c), code_name(code), F::name, what);
            if (code == OK) verify_called();
        } else {
            auto r = F::call(in2);
            REQUIRE(zpp::bits::success(r) == !zpp::bits::failure(r) && r.success() == zpp::bits::success(r), "success() and failure() disagree [%s]", F::name);
            std::errc c = zpp::bits::success(r) ? OK : std::errc(r.error());
            REQUIRE(zpp::bits::success(r) == (code == OK) && c == code, "%s, expected %s [%s, %s]", zpp::bits::success(r) ? "success" : code_name(c), code_name(code), F::name, what);
            if (code == OK) {
                verify_called();
                auto verify = [&](auto && v) {
                    if constexpr (std::is_reference_v<R>) REQUIRE(static_cast<const void *>(std::addressof(v)) == &result, "another object is returned [%s]", F::name);
                    if constexpr (std::is_same_v<R, uptr>) REQUIRE(v && *v == digest(expected), "other result [%s]", F::name);
                    else if constexpr (std::is_same_v<R, nd>) REQUIRE(v.p && *v.p == digest(expected), "other result [%s]", F::name);
                    else REQUIRE(encoded(v) == encoded(result), "other result [%s]", F::name);
                };
                verify(r.value());
                verify(std::as_const(r).value());
                verify(r.or_throw());
                verify(std::as_const(r).or_throw());
                auto moved = std::move(r); // the value moves along
                REQUIRE(zpp::bits::success(moved), "moving a result made it a failure [%s]", F::name);
                verify(moved.value());
                switch (s.below(2)) {
                case 0: { decltype(auto) v = std::move(moved).value(); verify(v); break; }
                default: { decltype(auto) v = std::move(moved).or_throw(); verify(v); break; }
                }
            } else {
                auto moved = std::move(r); // the code moves along
                REQUIRE(zpp::bits::failure(moved) && std::errc(moved.error()) == code, "moving a result changed its code [%s]", F::name);
                if (s.flip(1, 4)) {
                    auto saved = eng::alloc();
                    bool system = false;
                    try {
                        switch (s.below(3)) {
                        case 0: (void)moved.or_throw(); break;
                        case 1: (void)std::as_const(moved).or_throw(); break;
                        default: (void)std::move(moved).or_throw(); break;
                        }
                    } catch (const std::system_error & x) {
                        system = x.code() == std::make_error_code(code);
                    }
                    eng::alloc() = saved;
                    REQUIRE(system, "or_throw() does not throw the error [%s]", F::name);
                }
            }
        }
    } catch (int x) {
        threw = true;
        REQUIRE(x == 42 && the_log.throws && code == OK, "unexpected exception [%s]", F::name);
        verify_called();
    }
    REQUIRE(threw == (the_log.throws && code == OK), "the function's exception did not pass [%s]", F::name);
    if (code != OK) {
        REQUIRE(the_log.calls == 0, "called in spite of %s [%s]", code_name(code), F::name);
        REQUIRE(in2.position() == in1.position(), "position %zu after failing, expected %zu [%s]", in2.position(), in1.position(), F::name);
    }
    ctx.label(what);
    if (code != OK) ctx.label("decoding fails");
    if (n_args >= 1 && e.out.size() >= 2) ctx.nontrivial();
    if (ctx.sampling()) ctx.sample("%s (%s), %s of %zu bytes: %s", F::name, C::name, what, data.size(), code_name(code));
}
} // namespace c17
