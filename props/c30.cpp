// C30: archives share nothing: calls on other threads, and calls made inside of user functions, do not interfere.
#include "common.hpp"
#include "configs.hpp"
#include <atomic>
#include <map>
#include <memory>
#include <optional>
#include <thread>
#include <variant>

namespace
{
// A value with its encoding, and what a thread found wrong with it.
struct Work
{
    const Ops & o;
    Value v;
    Bytes enc;
    std::unique_ptr<Exact> mem;
    bool ordered;
    explicit Work(const Ops & o) : o(o), v(o), ordered(o.flags & ops::F_ORDERED) {}
    void prepare(eng::Ctx & ctx)
    {
        model::G g{ctx.src};
        g.budget = 60;
        g.big = false;
        v.gen(g);
        Bytes buf;
        auto w = o.write_grow(v.p, buf, 0);
        REQUIRE(w.code == OK && w.pos == buf.size(), "serializing %s [%s]: %s", sh(o.type).c_str(), o.cfg_name, code_name(w.code));
        if (ordered) REQUIRE(buf == v.enc(), "serializing %s [%s]: other bytes", sh(o.type).c_str(), o.cfg_name);
        enc = buf; // the same object gives the same bytes again
        mem = std::make_unique<Exact>(enc);
    }
    const char * write() const
    {
        Bytes buf;
        auto w = o.write_grow(v.p, buf, 0);
        if (w.code != OK) return "writing fails";
        return w.pos == enc.size() && buf == enc ? nullptr : "other bytes are written";
    }
    const char * read(Value & target) const
    {
        auto r = o.read(target.p, mem->p, mem->n, 0);
        if (r.code != OK || r.pos != mem->n) return "reading fails";
        return target.eq(v) ? nullptr : "another value is read";
    }
};
} // namespace

// ---------------------------------------------------------------- other archive users: protocol messages, RPC, apply
namespace jobs
{
using namespace zpp::bits::literals;
struct pb_point { zpp::bits::vint32_t x; zpp::bits::vsint64_t y; auto operator<=>(const pb_point &) const = default; };
auto serialize(const pb_point &) -> zpp::bits::pb_protocol;
struct pb_all
{
    using serialize = zpp::bits::pb_protocol;
    std::string s;
    std::map<std::string, std::uint32_t> scalars;
    std::map<zpp::bits::vuint32_t, pb_point> points;
    std::vector<pb_point> list;
    std::vector<zpp::bits::vuint64_t> numbers;
    std::vector<std::string> strings;
    pb_point one;
    std::uint32_t last{};
};
inline bool equal(const pb_all & a, const pb_all & b)
{
    return std::tie(a.s, a.scalars, a.list, a.numbers, a.strings, a.one, a.last) == std::tie(b.s, b.scalars, b.list, b.numbers, b.strings, b.one, b.last) && a.points == b.points;
}
inline std::string str(std::uint64_t & x)
{
    x = x * 6364136223846793005ull + 1442695040888963407ull;
    return std::string(x >> 60, char('a' + (x >> 40) % 26)) + std::to_string(x >> 50);
}
inline pb_point point(std::uint64_t & x) { auto s = str(x); return {std::int32_t(x >> 32), std::int64_t(x)}; }
// what called functions do besides
inline const char * (*inside)(std::uint64_t) = nullptr;
inline thread_local int depth = 0;
inline thread_local const char * inside_wrong = nullptr;
inline void more(std::uint64_t x)
{
    if (!inside || depth) return;
    ++depth;
    if (auto w = inside(x)) inside_wrong = w;
    --depth;
}

inline const char * message(std::uint64_t x)
{
    pb_all m;
    auto n = x % 4;
    m.s = str(x);
    for (std::uint64_t i = 0; i < n; ++i) {
        m.scalars.emplace(str(x), std::uint32_t(x >> 20));
        m.points.emplace(zpp::bits::vuint32_t(std::uint32_t(x >> 30)), point(x));
        m.list.push_back(point(x));
        m.numbers.push_back(x);
        m.strings.push_back(str(x));
    }
    m.one = point(x);
    m.last = std::uint32_t(x >> 7);
    std::vector<std::byte> data;
    zpp::bits::out out{data};
    if (failure(out(m, m))) return "writing a message fails";
    pb_all a, b = m;
    zpp::bits::in in{data};
    if (failure(in(a, b)) || in.position() != data.size()) return "reading a message fails";
    if (!equal(a, m) || !equal(b, m)) return "another message is read";
    return nullptr;
}
inline std::string twice(std::string s, std::uint32_t x) { more(x); return s + s + std::to_string(x); }
inline std::vector<std::string> split(std::map<std::string, pb_point> m)
{
    more(m.size());
    std::vector<std::string> r;
    for (auto & [k, v] : m) r.push_back(k + std::to_string(std::int64_t(v.y)));
    return r;
}
using rpc = zpp::bits::rpc<zpp::bits::bind<&twice, 1>, zpp::bits::bind<&split, "split"_sha256_int>>;
inline const char * calls(std::uint64_t x)
{
    auto [data, in, out] = zpp::bits::data_in_out();
    rpc::client client{in, out};
    rpc::server server{in, out};
    auto n = 1 + x % 4;
    for (std::uint64_t i = 0; i < n; ++i) {
        auto s = str(x);
        auto y = std::uint32_t(x >> 33);
        data.clear();
        in.reset();
        out.reset();
        if (failure(client.request<1>(s, y)) || failure(server.serve())) return "a request fails";
        auto r = client.response<1>();
        if (failure(r) || r.value() != s + s + std::to_string(y)) return "a request has another answer";
        std::map<std::string, pb_point> m;
        std::vector<std::string> want;
        for (std::uint64_t k = 0; k < n; ++k) m.emplace(str(x), point(x));
        for (auto & [k, v] : m) want.push_back(k + std::to_string(std::int64_t(v.y)));
        data.clear();
        in.reset();
        out.reset();
        if (failure(client.request<"split"_sha256_int>(m)) || failure(server.serve())) return "a second request fails";
        auto r2 = client.response<"split"_sha256_int>();
        if (failure(r2) || r2.value() != want) return "a second request has another answer";
    }
    return nullptr;
}
inline const char * applied(std::uint64_t x)
{
    std::vector<std::byte> data;
    zpp::bits::out out{data};
    auto s = str(x);
    auto p = point(x);
    std::map<std::string, pb_point> m{{s, p}, {str(x), point(x)}};
    if (failure(out(s, p, m))) return "writing arguments fails";
    zpp::bits::in in{data};
    auto seed = x;
    auto r = zpp::bits::apply([&](std::string a, pb_point b, std::map<std::string, pb_point> c) { more(seed); return a == s && b == p && c == m; }, in);
    if (failure(r)) return "applying fails";
    return r.value() ? nullptr : "a function is applied to other arguments";
}
constexpr const char * (*all[])(std::uint64_t) = {message, calls, applied};
constexpr const char * names[] = {"protocol messages", "remote calls", "applied functions"};
} // namespace jobs

#ifdef ENGINE_THREADS
PROPERTY("threads_of_users", 1)
{
    constexpr std::size_t max = 3;
    auto threads = 2 + ctx.src.below(max - 1);
    auto rounds = 1 + ctx.src.below(3);
    std::size_t kind[max];
    std::uint64_t seed[max];
    const char * wrong[max] = {};
    bool same = ctx.src.flip();
    for (std::size_t t = 0; t < max; ++t) {
        kind[t] = same && t ? kind[0] : ctx.src.below(3);
        seed[t] = ctx.src.bits();
    }
    std::atomic<std::size_t> ready{0};
    {
        std::vector<std::thread> running;
        for (std::size_t t = 0; t < threads; ++t) {
            running.emplace_back([&, t] {
                ready.fetch_add(1, std::memory_order_relaxed);
                while (ready.load(std::memory_order_relaxed) < threads) std::this_thread::yield();
                for (std::size_t i = 0; i < rounds && !wrong[t]; ++i) wrong[t] = jobs::all[kind[t]](seed[t] + i);
            });
        }
        for (auto & r : running) r.join();
    }
    for (std::size_t t = 0; t < threads; ++t) REQUIRE(!wrong[t], "%s in one of %zu threads", wrong[t], std::size_t(threads));
    ctx.label(jobs::names[kind[0]]);
    ctx.nontrivial();
    if (ctx.sampling()) ctx.sample("%zu threads, %zu rounds, %s and %s", std::size_t(threads), std::size_t(rounds), jobs::names[kind[0]], jobs::names[kind[1]]);
}
#else
PROPERTY("nested_users", 6)
{
    struct Reset { ~Reset() { jobs::inside = nullptr; } } reset;
    auto outer = 1 + ctx.src.below(2), inner = ctx.src.below(3);
    jobs::inside = jobs::all[inner];
    jobs::inside_wrong = nullptr;
    auto seed = ctx.src.bits();
    auto wrong = jobs::all[outer](seed);
    REQUIRE(!jobs::inside_wrong, "%s inside of %s", jobs::inside_wrong, jobs::names[outer]);
    REQUIRE(!wrong, "%s with %s inside", wrong, jobs::names[inner]);
    ctx.label(jobs::names[inner]);
    ctx.nontrivial();
    if (ctx.sampling()) ctx.sample("%s inside of %s", jobs::names[inner], jobs::names[outer]);
}
#endif

#ifdef ENGINE_THREADS
PROPERTY("threads", 1)
{
    // all threads use the same objects and buffers, one of them other types, too
    std::vector<std::unique_ptr<Work>> works;
    auto n = 1 + ctx.src.below(2);
    for (std::size_t i = 0; i < n; ++i) {
        works.push_back(std::make_unique<Work>(pick_ops(ctx)));
        works.back()->prepare(ctx);
    }
    ctx.label(works[0]->o.cfg_name);
    constexpr std::size_t max = 3;
    auto threads = 2 + ctx.src.below(max - 1);
    auto rounds = 1 + ctx.src.below(3);
    const char * wrong[max] = {};
    const Work * at[max] = {};
    unsigned plan[max] = {};
    for (std::size_t t = 0; t < threads; ++t) plan[t] = ctx.src.below(4);
    std::atomic<std::size_t> ready{0};
    {
        std::vector<std::thread> running;
        for (std::size_t t = 0; t < threads; ++t) {
            running.emplace_back([&, t] {
                ready.fetch_add(1, std::memory_order_relaxed);
                while (ready.load(std::memory_order_relaxed) < threads) std::this_thread::yield();
                for (std::size_t i = 0; i < rounds && !wrong[t]; ++i) {
                    for (std::size_t k = 0; k < works.size() && !wrong[t]; ++k) {
                        auto & w = *works[(k + t) % works.size()];
                        Value target(w.o);
                        at[t] = &w;
                        if (plan[t] != 0) wrong[t] = w.write();
                        if (plan[t] != 1 && !wrong[t]) wrong[t] = w.read(target);
                        if (plan[t] == 2 && !wrong[t]) wrong[t] = w.read(target);
                    }
                }
            });
        }
        for (auto & r : running) r.join();
    }
    bool big = false;
    for (auto & w : works) big |= w->enc.size() >= 2;
    if (big) ctx.nontrivial();
    for (std::size_t t = 0; t < threads; ++t)
        if (wrong[t]) REQUIRE(false, "%s [%s]: %s in one of %zu threads", sh(at[t]->o.type).c_str(), at[t]->o.cfg_name, wrong[t], std::size_t(threads));
    if (ctx.sampling()) ctx.sample("%zu threads, %zu rounds: %s [%s] %s", std::size_t(threads), std::size_t(rounds), sh(works[0]->o.type, 160).c_str(), works[0]->o.cfg_name, hex(works[0]->enc, 40).c_str());
}
#else
namespace c30
{
inline const Work * inner;
inline const char * inner_wrong;
inline std::size_t inner_calls, depth;
inline const char * (*self)(const void *); // or the outer value itself again
inline const void * self_arg;
inline void run_inner()
{
    if (self && depth < 1 && inner_calls < 40) {
        ++depth;
        ++inner_calls;
        if (!inner_wrong) inner_wrong = self(self_arg);
        --depth;
        return;
    }
    if (!inner || depth >= 2) return;
    ++depth;
    ++inner_calls;
    auto w = inner;
    if (!inner_wrong) inner_wrong = w->write();
    Value target(w->o);
    if (!inner_wrong) inner_wrong = w->read(target);
    --depth;
}
struct hook // its function uses other archives in the middle
{
    std::uint32_t x{};
    zpp::bits::vuint64_t y;
    static zpp::bits::errc serialize(auto & archive, auto & self)
    {
        run_inner();
        if (auto r = archive(self.x); zpp::bits::failure(r)) return r;
        run_inner();
        auto r = archive(self.y);
        run_inner();
        return r;
    }
    auto operator<=>(const hook & o) const { return std::pair(x, y.value) <=> std::pair(o.x, o.y.value); }
};
struct listed { using serialize = zpp::bits::members<3>; std::vector<hook> a; std::bitset<13> b; hook c; };
struct part { std::string s; hook h; std::vector<std::string> t; };
} // namespace c30
template <> struct model::M<c30::hook> : model::StructModel<c30::hook, model::M<c30::hook>>
{
    static c30::hook fresh() { return {}; }
    static auto tie(auto & s) { return std::tie(s.x, s.y); }
    static constexpr bool hostile = true, ordered = true;
    static constexpr std::size_t min_bytes = 5;
};
MODEL_STRUCT(c30::listed, s.a, s.b, s.c)
MODEL_STRUCT(c30::part, s.s, s.h, s.t)

namespace c30
{
template <typename T, typename C>
struct Self
{
    const T & v;
    const Bytes & enc;
    static const char * run(const void * p)
    {
        auto & me = *static_cast<const Self *>(p);
        typename C::container data;
        auto out = C::out(data);
        std::errc r = out(me.v);
        if (r != OK || data.size() != me.enc.size() || !equal_bytes(data.data(), me.enc.data(), me.enc.size())) return "other bytes are written by the same value again";
        auto target = std::make_unique<T>(model::M<T>::fresh());
        auto in = C::in(data);
        r = in(*target);
        if (r != OK || in.position() != me.enc.size() || !model::M<T>::eq(*target, me.v)) return "another value is read by the same type again";
        return nullptr;
    }
};
template <typename T, typename C>
void nested(eng::Ctx & ctx, const void * name_)
{
    auto name = static_cast<const char *>(name_);
    inner = nullptr;
    struct Reset { ~Reset() { inner = nullptr; self = nullptr; depth = 0; } } reset;
    Work work(pick_ops(ctx));
    work.prepare(ctx);
    auto v = std::make_unique<T>(model::M<T>::fresh()), target = std::make_unique<T>(model::M<T>::fresh());
    model::G g{ctx.src};
    g.budget = 30;
    g.big = false;
    g.limit(40);
    model::M<T>::gen(g, *v);
    model::Enc e;
    e.cfg = C::cfg;
    model::M<T>::enc(*v, e);
    auto & enc = e.out;
    if (ctx.src.flip(1, 3)) model::M<T>::gen(g, *target);
    typename C::container data;
    auto out = C::out(data);
    inner = &work;
    Self<T, C> same{*v, enc};
    bool again = ctx.src.flip(1, 3);
    if (again) {
        self = &Self<T, C>::run;
        self_arg = &same;
    }
    inner_wrong = nullptr;
    inner_calls = 0;
    std::errc r = out(*v);
    REQUIRE(r == OK && out.position() == enc.size() && data.size() == enc.size() && equal_bytes(data.data(), enc.data(), enc.size()), "%s: other bytes when its functions serialize %s [%s]: %s at %zu, expected %s", name,
            sh(work.o.type).c_str(), work.o.cfg_name, code_name(r), std::size_t(out.position()), hex(enc).c_str());
    REQUIRE(!inner_wrong, "%s [%s]: %s inside of the functions of %s", sh(work.o.type).c_str(), work.o.cfg_name, inner_wrong, name);
    auto in = C::in(data);
    r = in(*target);
    REQUIRE(r == OK && in.position() == enc.size(), "%s: %s at %zu of %zu when its functions read %s [%s]", name, code_name(r), std::size_t(in.position()), enc.size(), sh(work.o.type).c_str(), work.o.cfg_name);
    REQUIRE(!inner_wrong, "%s [%s]: %s inside of the functions of %s while reading", sh(work.o.type).c_str(), work.o.cfg_name, inner_wrong, name);
    inner = nullptr;
    self = nullptr;
    REQUIRE(model::M<T>::eq(*v, *target), "%s: another value is read when its functions read %s [%s]", name, sh(work.o.type).c_str(), work.o.cfg_name);
    if (inner_calls && work.enc.size()) ctx.nontrivial();
    ctx.label(inner_calls && again ? "the same value inside" : inner_calls ? "nested calls" : "no nested calls");
    if (ctx.sampling()) ctx.sample("%s: %zu calls of %s [%s] inside of %s", name, inner_calls, sh(work.o.type, 120).c_str(), work.o.cfg_name, hex(enc, 40).c_str());
}
template <typename... T> using P = std::tuple<T...>;
using std::string;
using u8 = std::uint8_t;
} // namespace c30
#define NESTED1(N, C, ...) static eng::Registrar N##_##C{"nested_" #N "." #C, &c30::nested<__VA_ARGS__, cfgs::C>, #N "." #C};
#define NESTED(N, ...) NESTED1(N, plain, __VA_ARGS__) NESTED1(N, big_s2, __VA_ARGS__) NESTED1(N, svarint, __VA_ARGS__)
namespace c30
{
NESTED(tuple, P<u8, hook, string>)
NESTED(vector, std::vector<hook>)
NESTED(map, std::map<string, hook>)
NESTED(keys, std::map<hook, string>)
NESTED(sums, P<std::optional<hook>, std::variant<u8, hook, string>, std::unique_ptr<hook>>)
NESTED(parts, std::vector<part>)
NESTED(lists, P<listed, std::array<part, 2>, zpp::bits::vuint32_t, listed>)
NESTED(deep, std::map<u8, std::vector<std::optional<std::shared_ptr<part>>>>)
} // namespace c30
#endif
