// C23: every build of the same program observes the same bytes, values and error codes.
// The first build runs the cases and compares its trace with those of all other builds.
#include "common.hpp"
#include "configs.hpp"
#include <list>
#include <span>

namespace
{
void tr(const Bytes & b) { eng::trace_value(b.size()); eng::trace(b.data(), b.size()); }
void tr(std::errc e) { eng::trace_value(std::int32_t(e)); }
void tr(const Res & r) { tr(r.code); eng::trace_value(std::uint64_t(r.pos)); }

// Every choice is drawn in a statement of its own: the order of evaluation of function arguments and of
// the operands of operators is the compiler's choice, and all builds must draw the same case.
// The usual ways to damage a message.
void damage(eng::Src & s, Bytes & b)
{
    if (s.flip(1, 3) && b.size()) b.resize(s.below(b.size() + 1));
    for (auto k = s.below(4); k-- && b.size();) {
        auto at = s.below(b.size());
        switch (s.below(5)) {
        case 0: { auto x = (unsigned char)s.below(256); b[at] = x; break; }
        case 1: b[at] ^= (unsigned char)(1u << s.below(8)); break;
        case 2: { auto x = (unsigned char)s.interesting(8); b.insert(b.begin() + std::ptrdiff_t(at), x); break; }
        case 3: b[at] |= 0x80; break;
        default: { auto n = s.small(10); auto x = (unsigned char)s.below(256); b.resize(b.size() + n, x); break; }
        }
    }
}
} // namespace

PROPERTY("types", 60)
{
    auto & o = pick_ops(ctx);
    if (!(o.flags & ops::F_ORDERED)) return;
    auto & s = ctx.src;
    Value v(o);
    v.gen(s);
    Bytes buf = random_bytes(s, s.small(12));
    auto at = s.below(buf.size() + 1);
    auto w = o.write_grow(v.p, buf, at);
    tr(buf);
    tr(w);
    auto want = v.enc();
    tr(want);
    {
        auto n = s.below(want.size() + 8);
        Exact e(Bytes(n, 0xaa));
        auto r = o.write_fixed(v.p, e.p, e.n, 0);
        tr(r);
        if (r.code == OK) eng::trace(e.p, e.n);
        else eng::trace(e.p, std::min(r.pos, e.n));
    }
    Value u(o);
    if (s.flip(1, 3)) { model::G g{s}; g.big = false; g.budget = 30; u.gen(g); }
    {
        Exact e(want);
        tr(o.read(u.p, e.p, e.n, 0));
        tr(u.enc());
    }
    if (o.flags & ops::F_HOSTILE) {
        auto b = want;
        if (s.flip(1, 5)) b = random_bytes(s, s.small(40));
        damage(s, b);
        Exact e(b);
        auto r = o.read_limited(u.p, e.p, e.n, 0);
        // the allocation limit counts bytes of memory: elements that are containers have different sizes
        if (r.code == std::errc::message_size) eng::trace_open();
        tr(r);
        if (r.code == OK) tr(u.enc());
        ctx.label(code_name(r.code));
    }
    ctx.label(o.cfg_name);
    if (want.size() > 3) ctx.nontrivial();
    if (ctx.sampling()) ctx.sample("%s [%s]: %s", sh(o.type).c_str(), o.cfg_name, hex(want, 32).c_str());
}

namespace
{
template <typename V, typename C> void varint(eng::Ctx & ctx)
{
    auto & s = ctx.src;
    typename C::container data;
    auto out = C::out(data);
    std::vector<V> v(s.below(4));
    for (auto & x : v) { auto b = s.interesting(64); std::memcpy(&x.value, &b, sizeof x.value); }
    for (auto & x : v) tr(std::errc(out(x)));
    Bytes b(reinterpret_cast<unsigned char *>(data.data()), reinterpret_cast<unsigned char *>(data.data()) + data.size());
    tr(b);
    if (s.flip()) for (auto k = s.below(14); k--;) { auto x = s.interesting(8); if (s.flip(3, 4)) x |= 0x80; b.push_back((unsigned char)x); }
    if (s.flip(1, 3)) damage(s, b);
    Exact e(b);
    std::span<const typename C::byte> in_data{reinterpret_cast<const typename C::byte *>(e.p), e.n};
    auto in = C::in(in_data);
    for (int i = 0; i < 6; ++i) {
        V x{};
        std::errc r = in(x);
        tr(r);
        eng::trace_value(std::uint64_t(in.position()));
        if (r != OK) break;
        eng::trace_value(x.value);
    }
    if (b.size() > 2) ctx.nontrivial();
    ctx.label("varints");
    if (ctx.sampling()) ctx.sample("varints %s", hex(b).c_str());
}
template <typename C> void varints(eng::Ctx & ctx)
{
    using namespace zpp::bits;
    switch (ctx.src.below(9)) {
    case 0: return varint<vint32_t, C>(ctx);
    case 1: return varint<vint64_t, C>(ctx);
    case 2: return varint<vuint32_t, C>(ctx);
    case 3: return varint<vuint64_t, C>(ctx);
    case 4: return varint<vsint32_t, C>(ctx);
    case 5: return varint<vsint64_t, C>(ctx);
    case 6: return varint<zpp::bits::varint<std::uint8_t>, C>(ctx);
    case 7: return varint<zpp::bits::varint<std::int16_t>, C>(ctx);
    default: return varint<zpp::bits::varint<std::uint16_t>, C>(ctx);
    }
}
} // namespace
PROPERTY("varint", 15)
{
    if (ctx.src.flip()) varints<cfgs::plain>(ctx);
    else varints<cfgs::network>(ctx);
}

namespace msg
{
using namespace zpp::bits;
enum class kind : std::int32_t { none, one, minus = -1 };
struct point
{
    using serialize = protocol<pb{}>;
    vint32_t x;
    vsint64_t y;
    double z{};
};
struct person
{
    std::string name;
    vuint64_t id;
    std::vector<std::uint32_t> marks;
    std::vector<vsint32_t> deltas;
    std::list<point> path;
    std::map<std::string, vint32_t> ages;
    pb_field<std::map<std::uint32_t, point>, 40> places;
    kind k{};
    float f{};
    bool b{};
    pb_field<std::vector<std::string>, 100> tags;
    std::vector<std::byte> blob;
    pb_field<std::set<std::string>, 2000> names;
    point last;
    using serialize = protocol<pb{}>;
};
} // namespace msg
namespace
{
void gen(eng::Src & s, std::string & v) { auto n = s.length(300); auto c = char('a' + s.below(26)); v.assign(n, c); }
void gen(eng::Src & s, msg::point & p)
{
    p.x = std::int32_t(s.interesting(32));
    p.y = std::int64_t(s.interesting(64));
    p.z = double(std::int64_t(s.interesting(40))) / 4;
}
void gen(eng::Src & s, msg::person & p)
{
    gen(s, p.name);
    p.id = s.interesting(64);
    p.marks.resize(s.small(40));
    for (auto & x : p.marks) x = std::uint32_t(s.interesting(32));
    p.deltas.resize(s.small(20));
    for (auto & x : p.deltas) x = std::int32_t(s.interesting(32));
    p.path.resize(s.small(5));
    for (auto & x : p.path) gen(s, x);
    for (auto k = s.small(4); k--;) { std::string n; gen(s, n); auto v = std::int32_t(s.interesting(32)); p.ages[n] = v; }
    auto & places = zpp::bits::pb_value(p.places);
    for (auto k = s.small(4); k--;) { auto id = std::uint32_t(s.interesting(32)); gen(s, places[id]); }
    p.k = std::array{msg::kind::none, msg::kind::one, msg::kind::minus}[s.below(3)];
    p.f = float(std::int64_t(s.interesting(20))) / 2;
    p.b = s.flip();
    auto & tags = zpp::bits::pb_value(p.tags);
    tags.resize(s.small(4));
    for (auto & x : tags) gen(s, x);
    p.blob.resize(s.length(200));
    for (auto & x : p.blob) x = std::byte(p.blob.size());
    for (auto k = s.small(4); k--;) { std::string n; gen(s, n); zpp::bits::pb_value(p.names).insert(n); }
    gen(s, p.last);
}
void tr(std::uint64_t v) { eng::trace_value(v); }
void tr(const std::string & v) { tr(v.size()); eng::trace(v.data(), v.size()); }
void tr(const msg::point & p) { eng::trace_value(p.x.value); eng::trace_value(p.y.value); eng::trace_value(p.z); }
void tr(const msg::person & p)
{
    tr(p.name);
    tr(p.id.value);
    tr(p.marks.size()); for (auto & x : p.marks) eng::trace_value(x);
    tr(p.deltas.size()); for (auto & x : p.deltas) eng::trace_value(x.value);
    tr(p.path.size()); for (auto & x : p.path) tr(x);
    tr(p.ages.size()); for (auto & [k, v] : p.ages) { tr(k); eng::trace_value(v.value); }
    auto & places = zpp::bits::pb_value(p.places);
    tr(places.size()); for (auto & [k, v] : places) { eng::trace_value(k); tr(v); }
    eng::trace_value(p.k);
    eng::trace_value(p.f);
    tr(std::uint64_t(reinterpret_cast<const unsigned char &>(p.b)));
    tr(zpp::bits::pb_value(p.tags).size()); for (auto & x : zpp::bits::pb_value(p.tags)) tr(x);
    tr(p.blob.size()); eng::trace(p.blob.data(), p.blob.size());
    tr(zpp::bits::pb_value(p.names).size()); for (auto & x : zpp::bits::pb_value(p.names)) tr(x);
    tr(p.last);
}
template <typename C> void message(eng::Ctx & ctx)
{
    auto & s = ctx.src;
    msg::person p;
    gen(s, p);
    typename C::container data;
    auto out = C::out(data);
    tr(std::errc(out(p)));
    Bytes b(reinterpret_cast<unsigned char *>(data.data()), reinterpret_cast<unsigned char *>(data.data()) + data.size());
    tr(b);
    msg::person q;
    if (s.flip(1, 4)) gen(s, q);
    bool hurt = s.flip();
    if (hurt) {
        damage(s, b);
        Exact e(b);
        std::span<const typename C::byte> view{reinterpret_cast<const typename C::byte *>(e.p), e.n};
        auto in = C::in(view, zpp::bits::alloc_limit<1 << 14>{});
        auto r = std::errc(in(q));
        tr(r);
        tr(in.position());
        if (r == OK) tr(q);
        ctx.label(r == OK ? "damaged message accepted" : "damaged message refused");
    } else {
        Exact e(b);
        std::span<const typename C::byte> view{reinterpret_cast<const typename C::byte *>(e.p), e.n};
        auto in = C::in(view);
        tr(std::errc(in(q)));
        tr(in.position());
        tr(q);
        ctx.label("message");
    }
    ctx.nontrivial();
    if (ctx.sampling()) ctx.sample("message%s %s", hurt ? " damaged" : "", hex(b).c_str());
}
} // namespace
PROPERTY("message", 15)
{
    switch (ctx.src.below(4)) {
    case 0: return message<cfgs::plain>(ctx);
    case 1: return message<cfgs::svarint>(ctx);
    case 2: return message<cfgs::network>(ctx);
    default: return message<cfgs::s2>(ctx);
    }
}

namespace
{
using namespace zpp::bits::literals;
int add(int a, std::int16_t b) { return int(unsigned(a) + unsigned(int(b))); }
std::string join(const std::string & a, std::string b) { return a + "/" + b; }
std::vector<std::uint16_t> twice(std::vector<std::uint16_t> v) { auto n = v.size(); v.resize(2 * n); for (std::size_t i = 0; i < n; ++i) v[n + i] = v[i]; return v; }
void nothing() {}
std::tuple<std::uint8_t, std::optional<std::string>> both(std::uint8_t a, std::optional<std::string> s) { return {std::uint8_t(a + 1), s}; }
using rpc = zpp::bits::rpc<zpp::bits::bind<add, "c23::add"_sha256_int>, zpp::bits::bind<join, "c23::join"_sha256_int>, zpp::bits::bind<twice, "c23::twice"_sha256_int>,
                           zpp::bits::bind<nothing, "c23::nothing"_sha256_int>, zpp::bits::bind<both, "c23::both"_sha256_int>>;
} // namespace
PROPERTY("rpc", 10)
{
    auto & s = ctx.src;
    auto [data, in, out] = zpp::bits::data_in_out();
    rpc::client client{in, out};
    auto n = s.below(4);
    auto text = [&] { auto n = s.small(20); auto c = char('a' + s.below(26)); return std::string(n, c); };
    for (std::size_t i = 0; i < n; ++i) {
        std::errc r;
        switch (s.below(5)) {
        case 0: { auto a = int(s.interesting(32)); auto b = std::int16_t(s.interesting(16)); r = client.request<"c23::add"_sha256_int>(a, b); break; }
        case 1: { auto a = text(); auto b = text(); r = client.request<"c23::join"_sha256_int>(a, b); break; }
        case 2: { auto k = s.small(9); auto x = std::uint16_t(s.interesting(16)); std::vector<std::uint16_t> v(k, x); r = client.request<"c23::twice"_sha256_int>(v); break; }
        case 3: r = client.request<"c23::nothing"_sha256_int>(); break;
        default: { auto a = std::uint8_t(s.interesting(8)); std::optional<std::string> o; if (s.flip()) o = text(); r = client.request<"c23::both"_sha256_int>(a, o); }
        }
        tr(r);
    }
    Bytes b(reinterpret_cast<unsigned char *>(data.data()), reinterpret_cast<unsigned char *>(data.data()) + data.size());
    tr(b);
    if (s.flip(1, 3)) damage(s, b);
    Exact e(b);
    std::span<const std::byte> view{reinterpret_cast<const std::byte *>(e.p), e.n};
    zpp::bits::in sin{view, zpp::bits::alloc_limit<1 << 12>{}};
    std::vector<std::byte> answer;
    zpp::bits::out sout{answer};
    rpc::server server{sin, sout};
    for (std::size_t i = 0; i < n + 1; ++i) {
        auto r = std::errc(server.serve());
        tr(r);
        tr(sin.position());
        tr(sout.position());
        if (r != OK) break;
    }
    tr(answer.size());
    eng::trace(answer.data(), answer.size());
    if (n) ctx.nontrivial();
    ctx.label("rpc");
    if (ctx.sampling()) ctx.sample("%zu requests %s", std::size_t(n), hex(b).c_str());
}

namespace
{
// Constant evaluated results of every build.
struct shape { std::uint16_t a; std::int32_t b; std::array<std::uint8_t, 3> c; zpp::bits::vint32_t v; enum class e : std::uint8_t { x = 3 } k; };
constexpr auto made = zpp::bits::to_bytes<shape{258, -5, {1, 2, 3}, -70000, shape::e::x}>();
constexpr auto digest = zpp::bits::sha256<"The quick brown fox"_s>();
} // namespace
PROPERTY("constants", 1)
{
    eng::trace(made.data(), made.size());
    eng::trace(digest.data(), digest.size());
    eng::trace_value("c23::add"_sha256_int);
    eng::trace_value("c23::add"_sha1_int);
    auto r = zpp::bits::from_bytes<made, shape>();
    eng::trace_value(r.a), eng::trace_value(r.b), eng::trace_value(r.c), eng::trace_value(r.v.value), eng::trace_value(r.k);
    constexpr auto v = zpp::bits::id_v<"some id"_sha256_int>;
    eng::trace_value(v);
    auto salt = ctx.src.below(1000);
    eng::trace_value(salt);
    ctx.label("constants");
}

// Types whose objects the standard libraries lay out in different ways.
namespace layouts
{
struct two { std::uint16_t a{}; std::uint16_t b{}; };
struct mixed { std::tuple<std::uint32_t, std::uint32_t> t; std::pair<std::uint16_t, std::uint16_t> p; std::uint32_t last{}; };
template <typename T> concept Listed = requires { std::tuple_size<T>::value; };
template <typename T> void fill(eng::Src & s, T & x)
{
    if constexpr (std::is_arithmetic_v<T> || std::is_enum_v<T>) {
        auto b = s.interesting(64);
        std::memcpy(&x, &b, sizeof x);
    } else if constexpr (Listed<T> && !requires { x.begin(); }) {
        std::apply([&](auto &... e) { (fill(s, e), ...); }, x);
    } else if constexpr (requires { x.fill({}); x.begin(); }) {
        for (auto & e : x) fill(s, e);
    } else if constexpr (std::is_same_v<T, two>) {
        fill(s, x.a), fill(s, x.b);
    } else if constexpr (std::is_same_v<T, mixed>) {
        fill(s, x.t), fill(s, x.p), fill(s, x.last);
    } else if constexpr (requires { x.push_back({}); }) {
        for (auto n = s.below(5); n--;) { typename T::value_type e{}; fill(s, e); x.push_back(e); }
    } else if constexpr (requires { x.has_value(); }) {
        auto has = s.flip();
        if (has) { x.emplace(); fill(s, *x); }
    } else if constexpr (requires { typename T::mapped_type; }) {
        for (auto n = s.below(4); n--;) { typename T::key_type k{}; fill(s, k); fill(s, x[k]); }
    } else if constexpr (requires { x.flip(); }) {
        for (std::size_t i = 0; i < x.size(); ++i) { auto b = s.flip(); x[i] = b; }
    } else static_assert(!sizeof(T));
}
template <typename T, typename C> void run(eng::Ctx & ctx)
{
    auto & s = ctx.src;
    T x{};
    fill(s, x);
    typename C::container data;
    tr(std::errc(C::out(data)(x)));
    Bytes b(reinterpret_cast<unsigned char *>(data.data()), reinterpret_cast<unsigned char *>(data.data()) + data.size());
    tr(b);
    if (s.flip()) damage(s, b);
    Exact e(b);
    std::span<const typename C::byte> view{reinterpret_cast<const typename C::byte *>(e.p), e.n};
    auto in = C::in(view, zpp::bits::alloc_limit<4096>{});
    T y{};
    std::errc r = in(y);
    tr(r);
    if (r == OK) {
        eng::trace_value(std::uint64_t(in.position()));
        typename C::container again;
        tr(std::errc(C::out(again)(y)));
        eng::trace(reinterpret_cast<unsigned char *>(again.data()), again.size());
    }
    if (b.size() > 2) ctx.nontrivial();
    ctx.label("layouts");
    if (ctx.sampling()) ctx.sample("layouts [%s] %s", C::name, hex(b, 32).c_str());
}
template <typename... Ts> void any(eng::Ctx & ctx)
{
    auto k = ctx.src.below(sizeof...(Ts));
    auto c = ctx.src.below(3);
    std::size_t i = 0;
    ((i++ == k ? (c == 0 ? run<Ts, cfgs::plain>(ctx) : c == 1 ? run<Ts, cfgs::network>(ctx) : run<Ts, cfgs::svarint>(ctx)) : void()), ...);
}
} // namespace layouts
PROPERTY("layouts", 8)
{
    using namespace layouts;
    using u8 = std::uint8_t; using u16 = std::uint16_t; using u32 = std::uint32_t; using i64 = std::int64_t;
    any<std::tuple<u16, u16>, std::tuple<u32, u32, u32>, std::tuple<u8, u8, u8, u8>, std::tuple<float, u32>, std::tuple<i64, double>, std::tuple<u16, u8, u8>,
        std::tuple<u8, u16, u32>, std::tuple<std::byte, std::byte>, std::pair<u32, u32>, std::pair<u16, i64>, std::pair<std::tuple<u8, u8>, u16>,
        std::tuple<std::tuple<u16, u16>, u32>, std::tuple<std::array<u8, 4>, u32>, std::array<std::tuple<u16, u16>, 3>, std::array<std::pair<u8, u8>, 3>,
        std::vector<std::tuple<u16, u16>>, std::vector<std::pair<u32, u32>>, std::list<std::tuple<u8, u8>>, mixed, two, std::vector<two>, std::vector<mixed>,
        std::array<two, 2>, std::tuple<two, u32>, std::optional<std::tuple<u16, u16>>, std::optional<two>, std::map<u16, std::tuple<u16, u16>>,
        std::map<std::tuple<u8, u8>, u16>, std::map<u32, two>, std::bitset<7>, std::bitset<33>, std::bitset<70>, std::tuple<std::bitset<12>, u16>,
        std::vector<std::bitset<9>>, std::tuple<char16_t, wchar_t, char32_t>, std::vector<wchar_t>>(ctx);
}
