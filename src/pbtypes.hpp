// Protobuf messages as items of ordinary archives, with their reference encodings written out by hand.
#pragma once
#include "model.hpp"

namespace pm
{
using zpp::bits::vint32_t;
using zpp::bits::vsint64_t;
using zpp::bits::vuint32_t;
struct point { using serialize = zpp::bits::protocol<zpp::bits::pb{}>; vint32_t x{}; vsint64_t y{}; double z{}; std::uint32_t w{}; vuint32_t b{}; };
struct text { using serialize = zpp::bits::protocol<zpp::bits::pb{}>; std::string s; std::vector<std::byte> b; };
struct packed { using serialize = zpp::bits::protocol<zpp::bits::pb{}>; std::vector<std::uint32_t> f; std::vector<vint32_t> v; std::vector<zpp::bits::vsint32_t> z; };
struct nest { using serialize = zpp::bits::protocol<zpp::bits::pb{}>; point p; std::vector<text> t; std::map<std::string, vint32_t> m; };
} // namespace pm

namespace model
{
template <typename S, typename Self>
struct MessageModel : Base<S>
{
    using Fields = StructModel<S, Self>;
    static constexpr std::size_t min_bytes = 0;
    static void gen(G & g, S & s)
    {
        MaxLen all{g, g.archive_max};
        Fields::gen(g, s);
        // the size prefix has to express the length
        if (body(s, nullptr).size() > g.archive_max) s = S{};
    }
    static Bytes body(const S & s, Enc * outer)
    {
        Enc b;
        b.cfg = Cfg{std::endian::native != std::endian::little, SP_VARINT};
        if (outer) b.lengths = outer->lengths;
        Self::fields(s, b);
        return std::move(b.out);
    }
    static void enc(const S & s, Enc & e)
    {
        auto b = body(s, &e);
        e.size(b.size());
        e.raw(b.data(), b.size());
    }
    static bool eq(const S & a, const S & b) { return Fields::eq(a, b); }
    // encodings of fields
    static void tag(Enc & e, unsigned number, unsigned wire) { e.varint(number * 8 + wire); }
    template <typename T> static void var(Enc & e, unsigned n, const T & v) { tag(e, n, 0); M<T>::enc(v, e); }
    static void blob(Enc & e, unsigned n, const void * p, std::size_t size)
    {
        tag(e, n, 2);
        e.varint(size);
        e.raw(p, size);
    }
    template <typename C> static void bytes(Enc & e, unsigned n, const C & c)
    {
        if (c.empty()) return;
        if (e.lengths) e.lengths->push_back(c.size());
        blob(e, n, c.data(), c.size());
    }
    template <typename C> static void list(Enc & e, unsigned n, const C & c)
    {
        if (c.empty()) return;
        Enc b;
        b.cfg = e.cfg;
        for (auto & x : c) M<typename C::value_type>::enc(x, b);
        if (e.lengths) e.lengths->push_back(b.out.size());
        blob(e, n, b.out.data(), b.out.size());
    }
    template <typename X> static void message(Enc & e, unsigned n, const X & x)
    {
        auto b = M<X>::body(x, &e);
        blob(e, n, b.data(), b.size());
    }
};
template <> struct M<pm::point> : MessageModel<pm::point, M<pm::point>>
{
    static auto tie(auto & s) { return std::tie(s.x, s.y, s.z, s.w, s.b); }
    static void fields(const pm::point & s, Enc & e)
    {
        var(e, 1, s.x);
        var(e, 2, s.y);
        tag(e, 3, 1), e.value(s.z);
        tag(e, 4, 5), e.value(s.w);
        var(e, 5, s.b);
    }
};
template <> struct M<pm::text> : MessageModel<pm::text, M<pm::text>>
{
    static auto tie(auto & s) { return std::tie(s.s, s.b); }
    static void fields(const pm::text & s, Enc & e) { bytes(e, 1, s.s); bytes(e, 2, s.b); }
};
template <> struct M<pm::packed> : MessageModel<pm::packed, M<pm::packed>>
{
    static auto tie(auto & s) { return std::tie(s.f, s.v, s.z); }
    static void fields(const pm::packed & s, Enc & e) { list(e, 1, s.f); list(e, 2, s.v); list(e, 3, s.z); }
};
template <> struct M<pm::nest> : MessageModel<pm::nest, M<pm::nest>>
{
    static auto tie(auto & s) { return std::tie(s.p, s.t, s.m); }
    static void fields(const pm::nest & s, Enc & e)
    {
        message(e, 1, s.p);
        for (auto & x : s.t) message(e, 2, x);
        for (auto & [k, v] : s.m) {
            Enc b;
            b.cfg = e.cfg;
            b.lengths = e.lengths;
            bytes(b, 1, k);
            var(b, 2, v);
            blob(e, 3, b.out.data(), b.out.size());
        }
    }
};
} // namespace model
