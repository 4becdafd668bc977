// C21: malformed protobuf input is rejected safely.
#pragma once
#include "pb.hpp"

namespace c21
{
using namespace pb;

template <typename T, typename C, unsigned K>
struct Run
{
    eng::Ctx & ctx;
    eng::Src & s;
    static constexpr bool sized = C::cfg.size != model::SP_NONE;
    struct Result { std::errc code; std::size_t position; Bytes dump; };

    std::size_t most = ~std::size_t{0}; // the largest request of memory that the case allows
    static constexpr std::size_t hostile_limit = 65536; // without a limit, strings are resized to whatever length is claimed
    template <typename... O>
    Result decode(const Bytes & wire, O... options)
    {
        Exact mem(wire);
        std::span<const typename C::byte> view{reinterpret_cast<const typename C::byte *>(mem.p), mem.n};
        auto in = C::in(view, std::move(options)...);
        eng::alloc_reset_peaks();
        auto allowed = 2000 * (wire.size() + 8) + 16 * hostile_limit;
        auto cap = eng::alloc_cap;
        eng::alloc_cap = std::min(allowed, most); // a bigger request throws, which fails the case
        T back{};
        std::errc r = in(back);
        eng::alloc_cap = cap;
        REQUIRE(in.position() <= wire.size(), "%s: the position %zu is behind %zu bytes: %s", PBM<T>::name, in.position(), wire.size(), hex(wire, 300).c_str());
        return {r, in.position(), r == OK ? dumped(back) : Bytes{}};
    }
    // what was accepted is written and read back equally
    void stable(const Result & x, const Bytes & wire)
    {
        Exact mem(wire);
        std::span<const typename C::byte> view{reinterpret_cast<const typename C::byte *>(mem.p), mem.n};
        auto in = C::in(view);
        T back{};
        (void)in(back);
        typename C::container data;
        auto out = C::out(data);
        std::errc r = out(std::as_const(back));
        if (r == std::errc::message_size) return; // longer than its size prefix allows
        REQUIRE(r == OK, "%s: accepted input is not written: %s: %s", PBM<T>::name, code_name(r), hex(wire, 300).c_str());
        auto in2 = C::in(data);
        T again{};
        r = in2(again);
        REQUIRE(r == OK && dumped(again) == x.dump, "%s: accepted input is not stable: %s: %s\n first %s\n again %s", PBM<T>::name, code_name(r), hex(wire, 300).c_str(), hex(x.dump, 300).c_str(), hex(dumped(again), 300).c_str());
    }
    // complete body b: accepted exactly when the other implementation accepts it, with the same values
    void agrees(const Bytes & b, const char * what)
    {
        auto wire = framed(C::cfg, b);
        auto r = decode(wire);
        Bytes expected;
        if (pbo::dump(PBM<T>::name, b.data(), b.size(), expected)) {
            REQUIRE(r.code == OK && r.position == wire.size() && r.dump == expected, "%s %s: %s at %zu of %zu: %s\n got %s\n wanted %s", PBM<T>::name, what, code_name(r.code), r.position, wire.size(), hex(b, 300).c_str(), hex(r.dump, 300).c_str(), hex(expected, 300).c_str());
            ctx.label("still valid");
        } else {
            REQUIRE(r.code != OK, "%s %s was accepted: %s", PBM<T>::name, what, hex(b, 300).c_str());
            ctx.label("rejected");
        }
    }
    void run()
    {
        T m{};
        G g{s};
        g.limit(300);
        g.budget = s.flip(1, 12) ? 400 : 40;
        gen_message(g, m);
        Encoder e;
        e.s = &s;
        auto o = e.message(tree(m, g, s.flip(1, 4)), 0);
        if ((C::cfg.size == model::SP_1 && o.b.size() > 200) || (C::cfg.size == model::SP_2 && o.b.size() > 65000)) return;
        auto & body = o.b;
        const char * what = "";
        switch (s.below(PBM<T>::hostile ? 8 : 5)) {
        case 0: { // cut, and the size prefix says so
            if (body.empty()) return;
            auto b = body;
            b.resize(s.below(b.size()));
            agrees(b, what = "truncated");
            break;
        }
        case 1: { // cut behind a size prefix that promises more
            if constexpr (sized) {
                auto wire = framed(C::cfg, body);
                wire.resize(s.below(wire.size()));
                auto r = decode(wire);
                REQUIRE(r.code != OK, "%s was accepted although its size prefix promises more: %s", PBM<T>::name, hex(wire, 300).c_str());
                what = "cut";
            }
            break;
        }
        case 2: case 3: { // a length that exceeds the enclosing message
            if (o.marks.empty()) return;
            auto x = o.marks[s.below(o.marks.size())];
            auto room = x.enclosing_end - x.payload;
            std::uint64_t length;
            switch (s.below(4)) {
            case 0: length = room + 1; break;
            case 1: length = room + 1 + s.below(200); break;
            case 2: length = room + 1 + s.below(100000); break;
            default: length = s.interesting(64); break;
            }
            Bytes l;
            auto claimed = length;
            if (x.depth) { // the enclosing lengths stay right
                auto max = x.length_size >= 9 ? ~std::uint64_t{0} : (std::uint64_t{1} << (7 * x.length_size)) - 1;
                if (room >= max) return;
                if (length <= room || length > max) length = room + 1 + s.below(max - room);
                claimed = length;
                for (std::size_t i = 0; i < x.length_size; ++i, length /= 128) l.push_back(static_cast<unsigned char>(length % 128 + (i + 1 < x.length_size ? 128 : 0)));
            } else {
                if (length <= room) length = room + 1;
                claimed = length;
                varint(l, length);
            }
            auto b = body;
            b.erase(b.begin() + std::ptrdiff_t(x.length_at), b.begin() + std::ptrdiff_t(x.length_at + x.length_size));
            b.insert(b.begin() + std::ptrdiff_t(x.length_at), l.begin(), l.end());
            if (C::cfg.size == model::SP_1 && b.size() > 255) return;
            auto wire = framed(C::cfg, b);
            if (sized) { auto after = random_bytes(s, s.small(300)); wire.insert(wire.end(), after.begin(), after.end()); }
            auto r = claimed < 200000 && s.flip() ? decode(wire) : decode(wire, zpp::bits::alloc_limit<hostile_limit>{});
            REQUIRE(r.code != OK, "%s: a field at %zu that exceeds the message around it was accepted: %s", PBM<T>::name, x.length_at, hex(b, 300).c_str());
            what = x.depth ? "overlong nested" : "overlong";
            break;
        }
        case 4: { // limits
            constexpr std::size_t limits[] = {0, 3, 16, 100};
            constexpr auto limit = limits[K % 4];
            bool padded = C::cfg.size != model::SP_1 && s.flip(1, 3);
            if (padded) { // a long field that the reader does not know is skipped: no memory is needed for it
                unsigned n = 3000;
                auto known = [&] { bool r = false; PBM<T>::visit(m, [&](unsigned x, auto &&) { r |= x == n; }); return r; };
                while (known()) ++n;
                auto length = std::min<std::size_t>(20000 + s.below(20000), C::cfg.size == model::SP_2 ? 65000 - body.size() : 65000);
                varint(body, n * 8 + 2);
                varint(body, length);
                body.insert(body.end(), length, 0x08);
                most = 16384 + 64 * limit + 8 * dumped(m).size();
                ctx.label("limited memory");
            }
            auto wire = framed(C::cfg, body);
            auto r = decode(wire, zpp::bits::alloc_limit<limit>{});
            if (e.longest > limit) REQUIRE(r.code == std::errc::message_size, "%s: a field of %zu bytes with a limit of %zu: %s: %s", PBM<T>::name, e.longest, limit, code_name(r.code), hex(body, 300).c_str());
            else REQUIRE(r.code == OK, "%s: fields up to %zu bytes with a limit of %zu: %s: %s", PBM<T>::name, e.longest, limit, code_name(r.code), hex(body, 300).c_str());
            what = e.longest > limit ? "beyond the limit" : "within the limit";
            break;
        }
        default: { // anything
            auto wire = framed(C::cfg, body);
            auto n = 1 + s.below(4);
            bool whole = s.flip(1, 10);
            if (whole) wire = random_bytes(s, s.small(60));
            else for (std::uint64_t i = 0; i < n && !wire.empty(); ++i) {
                auto at = s.below(wire.size());
                switch (s.below(5)) {
                case 0: wire[at] ^= static_cast<unsigned char>(1u << s.below(8)); break;
                case 1: wire[at] = static_cast<unsigned char>(s.below(256)); break;
                case 2: wire.insert(wire.begin() + std::ptrdiff_t(at), static_cast<unsigned char>(s.below(256))); break;
                case 3: wire.erase(wire.begin() + std::ptrdiff_t(at)); break;
                default: {
                    Bytes l;
                    varint(l, s.interesting(64));
                    wire.insert(wire.begin() + std::ptrdiff_t(at), l.begin(), l.end());
                }
                }
            }
            auto r = decode(wire, zpp::bits::alloc_limit<hostile_limit>{});
            if (r.code == OK) stable(r, wire);
            what = r.code == OK ? "damaged, accepted" : "damaged, rejected";
            break;
        }
        }
        if (!*what) return;
        ctx.label(what);
        if (body.size() >= 2) ctx.nontrivial();
        if (ctx.sampling()) ctx.sample("%s as %s, %zu bytes, %s", PBM<T>::name, C::name, body.size(), what);
    }
};
template <typename T, typename C, unsigned K>
void run(eng::Ctx & ctx, const void *) { Run<T, C, K>{ctx, ctx.src}.run(); }
} // namespace c21
#define PB_CASES(TYPE, NAME, CFG, KIND) static eng::Registrar NAME##_##CFG{#NAME "." #CFG, &c21::run<TYPE, cfgs::CFG, KIND>};
