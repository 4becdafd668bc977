// Packs: argument lists for one archive call, drawn from a fixed set of type combinations.
#pragma once
#include "common.hpp"

namespace items
{
enum class color : std::uint16_t { red = 1, green = 0x1234 };
struct point { std::uint16_t x{}, y{}; };
struct padded { std::uint8_t a{}; std::uint32_t b{}; std::uint16_t c{}; };
struct mixed { std::uint8_t a{}; std::string s; std::uint32_t b{}; std::vector<std::uint16_t> v; };
class hidden
{
    friend zpp::bits::access;
    friend struct ::model::M<hidden>;
    using serialize = zpp::bits::members<2>;
    std::uint32_t a{};
    std::string b;
};
struct custom
{
    std::uint64_t a{};
    std::optional<std::uint16_t> b;
    constexpr static auto serialize(auto & archive, auto & self) { return archive(self.a, self.b); }
};
} // namespace items
MODEL_STRUCT(items::point, s.x, s.y)
MODEL_STRUCT(items::padded, s.a, s.b, s.c)
MODEL_STRUCT(items::mixed, s.a, s.s, s.b, s.v)
MODEL_STRUCT(items::hidden, s.a, s.b)
MODEL_STRUCT(items::custom, s.a, s.b)

namespace items
{
template <typename... T> using P = std::tuple<T...>;
using u8 = std::uint8_t; using u16 = std::uint16_t; using u32 = std::uint32_t; using u64 = std::uint64_t;
using std::string; using std::vector;
using zz = zpp::bits::varint<std::int64_t, zpp::bits::varint_encoding::zig_zag>;
#ifndef ITEM_PACKS
using Packs = std::variant<
    P<u8>, P<u16>, P<u64>, P<double, bool>, P<string>, P<vector<u8>>, P<vector<u32>>, P<zpp::bits::vuint64_t>,
    P<std::bitset<13>>, P<point>, P<padded>, P<mixed>, P<hidden>, P<custom>,
    P<u8, u32, u16>, P<string, u64, vector<u16>>, P<zz, std::bitset<9>, color>, P<std::map<u16, string>, u8>,
    P<std::optional<string>, std::array<u16, 3>, std::variant<u8, string>>, P<std::unique_ptr<u32>, vector<padded>>,
    P<vector<string>, point, zpp::bits::vsize_t>, P<zpp::bits::vector1b<u16>, zpp::bits::vector8b<u8>>,
    P<std::u16string, std::tuple<u8, u16>, std::pair<u32, string>>>;
#else
using Packs = ITEM_PACKS;
#endif

struct Item
{
    Packs v;
    template <std::size_t I = 0> static void emplace(Packs & p, std::size_t i)
    {
        if constexpr (I < std::variant_size_v<Packs>) {
            if (I == i) p.template emplace<I>();
            else emplace<I + 1>(p, i);
        }
    }
    static Item generate(model::G & g) { Item i; i.gen(g); return i; }
    void gen(model::G & g)
    {
        emplace(v, g.src.below(std::variant_size_v<Packs>));
        std::visit([&]<typename T>(T & t) { model::M<T>::gen(g, t); }, v);
    }
    // an item of the same types with fresh values
    Item blank() const { Item b; emplace(b.v, v.index()); fill(b); return b; }
    static void fill(Item & b)
    {
        std::visit([&]<typename T>(T & t) { t = T{}; }, b.v);
    }
    Bytes enc(model::Cfg cfg) const
    {
        model::Enc e;
        e.cfg = cfg;
        std::visit([&]<typename T>(const T & t) { model::M<T>::enc(t, e); }, v);
        return std::move(e.out);
    }
    bool eq(const Item & b) const
    {
        if (v.index() != b.v.index()) return false;
        return std::visit([&]<typename T>(const T & t) { return model::M<T>::eq(t, *std::get_if<T>(&b.v)); }, v);
    }
    // one archive call with all the members as arguments
    std::errc call(auto & archive)
    {
        return std::visit([&](auto & t) -> std::errc { return std::apply([&](auto &... x) -> std::errc { return archive(x...); }, t); }, v);
    }
    // one call per member; stops at the first failure
    std::errc call_each(auto & archive)
    {
        return std::visit([&](auto & t) -> std::errc {
            std::errc r{};
            std::apply([&](auto &... x) { (void)(... && ((r = archive(x)) == std::errc{})); }, t);
            return r;
        }, v);
    }
    std::size_t arity() const
    {
        return std::visit([&]<typename T>(const T &) { return std::tuple_size_v<T>; }, v);
    }
};
} // namespace items
