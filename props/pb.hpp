// Protobuf messages: values, dumps comparable with libprotobuf's, and conforming encodings.
#pragma once
#include "common.hpp"
#include "configs.hpp"
#include "pb_oracle.hpp"
#include <algorithm>

namespace pb
{
using model::G;
using model::Enc;
enum Wire { VARINT = 0, FIXED64 = 1, LENGTH = 2, FIXED32 = 5 };

struct Msg;
struct Value
{
    int wire = VARINT;
    std::uint64_t value = 0;
    Bytes bytes;
    std::vector<Msg> msg; // one, when it is a message
    bool is_default() const;
};
struct Field
{
    unsigned number = 0;
    enum { SINGLE, REPEATED, MAP } kind = SINGLE;
    bool packable = false;
    std::vector<Value> items;
    std::vector<Value> earlier; // values that later occurrences override
};
struct Msg
{
    std::vector<Field> fields;
};
inline bool Value::is_default() const
{
    if (!msg.empty()) {
        for (auto & f : msg[0].fields) for (auto & i : f.items) if (f.kind != Field::SINGLE || !i.is_default()) return false;
        return true;
    }
    return wire == LENGTH ? bytes.empty() : value == 0;
}

inline void put(Bytes & b, std::uint64_t v) { auto p = reinterpret_cast<const unsigned char *>(&v); b.insert(b.end(), p, p + 8); }
inline void varint(Bytes & b, std::uint64_t v)
{
    while (v >= 128) { b.push_back(static_cast<unsigned char>(v % 128 + 128)); v /= 128; }
    b.push_back(static_cast<unsigned char>(v));
}

// Messages: name, visit(m, f) calling f(number, member) in number order, hostile.
template <typename T> struct PBM;
template <typename T> concept Message = requires { PBM<T>::name; };

template <typename T> struct PF;

template <typename T>
struct ScalarField
{
    static constexpr bool scalar = true;
    static void gen(G & g, T & v) { model::M<T>::gen(g, v); }
    static void dump(const T & v, Bytes & b) { put(b, PF<T>::number(v)); }
    static Value value(const T & v, G &, bool) { Value x; x.wire = PF<T>::wire; x.value = PF<T>::raw(v); return x; }
};
template <typename T> requires(std::is_integral_v<T> || std::is_floating_point_v<T>)
struct PF<T> : ScalarField<T>
{
    static constexpr int wire = std::is_same_v<T, bool> ? VARINT : sizeof(T) == 4 ? FIXED32 : FIXED64;
    static std::uint64_t number(T v)
    {
        if constexpr (std::is_floating_point_v<T>) { std::uint64_t r = 0; std::memcpy(&r, &v, sizeof v); return r; }
        else return std::uint64_t(std::int64_t(v));
    }
    static std::uint64_t raw(T v) { std::uint64_t r = 0; std::memcpy(&r, &v, sizeof v); return r; }
};
template <typename T> requires std::is_enum_v<T>
struct PF<T> : ScalarField<T>
{
    static constexpr int wire = VARINT;
    static std::uint64_t number(T v) { return std::uint64_t(std::int64_t(std::int32_t(v))); }
    static std::uint64_t raw(T v) { return number(v); }
};
template <typename I, zpp::bits::varint_encoding E>
struct PF<zpp::bits::varint<I, E>> : ScalarField<zpp::bits::varint<I, E>>
{
    using V = zpp::bits::varint<I, E>;
    static constexpr int wire = VARINT;
    static std::uint64_t number(const V & v) { return std::is_signed_v<I> ? std::uint64_t(std::int64_t(v.value)) : std::uint64_t(v.value); }
    static std::uint64_t raw(const V & v)
    {
        if (E == zpp::bits::varint_encoding::zig_zag) return model::M<V>::wire(v.value);
        return number(v);
    }
};
template <typename C>
struct BytesField
{
    static constexpr bool scalar = false;
    static void gen(G & g, C & v)
    {
        std::size_t n;
        if (!g.src.flip(1, 12)) n = g.src.small(12);
        else if (g.budget < 4 || !g.src.flip(1, 10)) n = 100 + g.src.below(200);
        else { // around the growth of a varint to three bytes, and beyond a block of memory
            static constexpr unsigned around[] = {16200, 16360, 16380, 16384, 40000, 65500, 65536};
            n = g.src.pick(around);
            n += g.src.below(30);
            g.budget /= 2;
        }
        v.clear();
        auto b = random_bytes(g.src, n);
        for (auto x : b) v.push_back(typename C::value_type(x));
    }
    static Bytes bytes(const C & v) { Bytes b; for (auto x : v) b.push_back(static_cast<unsigned char>(x)); return b; }
    static void dump(const C & v, Bytes & b) { put(b, v.size()); auto x = bytes(v); b.insert(b.end(), x.begin(), x.end()); }
    static Value value(const C & v, G &, bool) { Value x; x.wire = LENGTH; x.bytes = bytes(v); return x; }
};
template <> struct PF<std::string> : BytesField<std::string> {};
template <> struct PF<std::vector<std::byte>> : BytesField<std::vector<std::byte>> {};
template <> struct PF<std::vector<char>> : BytesField<std::vector<char>> {};
template <> struct PF<std::vector<signed char>> : BytesField<std::vector<signed char>> {};
template <> struct PF<std::vector<unsigned char>> : BytesField<std::vector<unsigned char>> {};
template <> struct PF<std::deque<std::byte>> : BytesField<std::deque<std::byte>> {};

template <typename T> Msg tree(const T & m, G & g, bool extra);
template <typename T> void gen_message(G & g, T & m);
template <typename T> void dump_message(const T & m, Bytes & b);
template <Message T>
struct PF<T>
{
    static constexpr bool scalar = false;
    static void gen(G & g, T & v) { gen_message(g, v); }
    static void dump(const T & v, Bytes & b) { dump_message(v, b); }
    static Value value(const T & v, G & g, bool extra) { Value x; x.wire = LENGTH; x.msg.push_back(tree(v, g, extra)); return x; }
};

enum Order { IN_ORDER, SET, MULTISET };
template <typename C, Order O>
struct RepeatedField
{
    using T = typename C::value_type;
    static constexpr bool scalar = false;
    static void gen(G & g, C & c)
    {
        model::Deeper d{g};
        c.clear();
        auto n = g.depth > 6 ? 0 : g.src.flip(1, 20) && PF<T>::scalar ? 20 + g.src.below(60) : g.src.small(g.depth <= 2 ? 6 : 3);
        if (n > g.budget) n = g.budget;
        g.budget -= n;
        if constexpr (PF<T>::scalar && O == IN_ORDER) {
            if (n > 75) { // long
                n = 100 + g.src.below(6000);
                T v{};
                while (n--) {
                    if (n % 64 == 0) PF<T>::gen(g, v);
                    c.push_back(v);
                }
                return;
            }
        }
        while (n--) {
            T v{};
            PF<T>::gen(g, v);
            if constexpr (O == IN_ORDER) c.push_back(std::move(v)); else c.insert(std::move(v));
        }
    }
    static void dump(const C & c, Bytes & b)
    {
        std::vector<Bytes> items;
        for (auto & x : c) { items.emplace_back(); PF<T>::dump(x, items.back()); }
        if (O != IN_ORDER) std::sort(items.begin(), items.end());
        put(b, items.size());
        for (auto & x : items) b.insert(b.end(), x.begin(), x.end());
    }
    static void field(const C & c, Field & f, G & g, bool extra)
    {
        f.kind = Field::REPEATED;
        f.packable = PF<T>::scalar;
        for (auto & x : c) f.items.push_back(PF<T>::value(x, g, extra));
    }
};
template <typename T, typename A> struct PF<std::vector<T, A>> : RepeatedField<std::vector<T, A>, IN_ORDER> {};
template <typename T, typename A> struct PF<std::list<T, A>> : RepeatedField<std::list<T, A>, IN_ORDER> {};
template <typename T, typename A> struct PF<std::deque<T, A>> : RepeatedField<std::deque<T, A>, IN_ORDER> {};
template <typename... X> struct PF<std::set<X...>> : RepeatedField<std::set<X...>, SET> {};
template <typename... X> struct PF<std::unordered_set<X...>> : RepeatedField<std::unordered_set<X...>, SET> {};
template <typename... X> struct PF<std::multiset<X...>> : RepeatedField<std::multiset<X...>, MULTISET> {};

template <typename C>
struct MapField
{
    using K = typename C::key_type;
    using V = typename C::mapped_type;
    static constexpr bool scalar = false;
    static void gen(G & g, C & c)
    {
        model::Deeper d{g};
        c.clear();
        auto n = g.depth > 6 ? 0 : g.src.small(g.depth <= 2 ? 5 : 2);
        if (n > g.budget) n = g.budget;
        g.budget -= n;
        while (n--) {
            K k{};
            V v{};
            PF<K>::gen(g, k);
            if constexpr (std::is_same_v<K, std::string>) for (auto & x : k) x &= 0x7f; // proto3 strings are UTF-8
            PF<V>::gen(g, v);
            c.emplace(std::move(k), std::move(v));
        }
    }
    static void dump(const C & c, Bytes & b)
    {
        std::vector<Bytes> items;
        for (auto & [k, v] : c) {
            items.emplace_back();
            put(items.back(), 1);
            PF<K>::dump(k, items.back());
            put(items.back(), 2);
            PF<V>::dump(v, items.back());
        }
        std::sort(items.begin(), items.end());
        put(b, items.size());
        for (auto & x : items) b.insert(b.end(), x.begin(), x.end());
    }
    static Value entry(const K & k, const V & v, G & g, bool extra)
    {
        Value x;
        x.wire = LENGTH;
        x.msg.emplace_back();
        x.msg[0].fields.resize(2);
        x.msg[0].fields[0].number = 1;
        x.msg[0].fields[0].items.push_back(PF<K>::value(k, g, extra));
        x.msg[0].fields[1].number = 2;
        x.msg[0].fields[1].items.push_back(PF<V>::value(v, g, extra));
        return x;
    }
    static void field(const C & c, Field & f, G & g, bool extra)
    {
        f.kind = Field::MAP;
        for (auto & [k, v] : c) {
            if (extra && g.src.flip(1, 4)) { // an earlier value of the same key
                V other{};
                PF<V>::gen(g, other);
                f.items.push_back(entry(k, other, g, extra));
            }
            f.items.push_back(entry(k, v, g, extra));
        }
    }
};
template <typename... X> struct PF<std::map<X...>> : MapField<std::map<X...>> {};
template <typename... X> struct PF<std::unordered_map<X...>> : MapField<std::unordered_map<X...>> {};

template <typename T>
void gen_message(G & g, T & m)
{
    model::Deeper d{g};
    PBM<T>::visit(m, [&](unsigned, auto && x) { PF<std::remove_cvref_t<decltype(x)>>::gen(g, x); });
}
template <typename T>
void dump_message(const T & m, Bytes & b)
{
    PBM<T>::visit(m, [&](unsigned n, auto && x) { put(b, n); PF<std::remove_cvref_t<decltype(x)>>::dump(x, b); });
}
template <typename T>
Bytes dumped(const T & m) { Bytes b; dump_message(m, b); return b; }
template <typename T>
Msg tree(const T & m, G & g, bool extra)
{
    Msg r;
    PBM<T>::visit(m, [&](unsigned n, auto && x) {
        using X = std::remove_cvref_t<decltype(x)>;
        Field f;
        f.number = n;
        if constexpr (requires { PF<X>::field(x, f, g, extra); }) {
            PF<X>::field(x, f, g, extra);
        } else {
            f.items.push_back(PF<X>::value(x, g, extra));
            if constexpr (!Message<X>) {
                while (extra && g.src.flip(1, 6)) {
                    X other{};
                    PF<X>::gen(g, other);
                    f.earlier.push_back(PF<X>::value(other, g, false));
                }
            }
        }
        r.fields.push_back(std::move(f));
    });
    return r;
}

// What documented reading leaves of an earlier value: repeated fields, maps and strings start empty, other
// values that the body does not set stay as they are.
template <typename T>
void leave_unset(T & m, const unsigned char * p, const unsigned char * end)
{
    std::map<std::uint64_t, std::pair<const unsigned char *, const unsigned char *>> present;
    auto number = [&] {
        std::uint64_t v = 0;
        for (unsigned shift = 0;; shift += 7) {
            auto b = *p++;
            if (shift < 64) v |= std::uint64_t(b & 127) << shift;
            if (b < 128) return v;
        }
    };
    while (p < end) {
        auto tag = number();
        auto & x = present[tag / 8];
        switch (tag % 8) {
        case VARINT: number(); break;
        case FIXED64: p += 8; break;
        case FIXED32: p += 4; break;
        default: { auto n = number(); x = {p, p + n}; p += n; }
        }
    }
    PBM<T>::visit(m, [&](unsigned n, auto && x) {
        using X = std::remove_cvref_t<decltype(x)>;
        if constexpr (Message<X>) {
            if (auto i = present.find(n); i != present.end() && i->second.first) leave_unset(x, i->second.first, i->second.second);
        } else if constexpr (requires { x.clear(); }) {
            x.clear();
        }
    });
}

// A conforming encoder. Without a source: fields in number order, packed, nothing else.
struct Encoder
{
    eng::Src * s = nullptr;
    struct Mark { std::size_t length_at, length_size, payload, end, enclosing_end; unsigned depth; };
    std::size_t longest = 0; // the longest string, bytes or packed field
    unsigned unknown = 0, overridden = 0, split = 0;

    struct Out { Bytes b; std::vector<Mark> marks; };
    static void append(Out & o, const Out & x)
    {
        auto at = o.b.size();
        for (auto m : x.marks) {
            m.length_at += at; m.payload += at; m.end += at;
            m.enclosing_end += at;
            o.marks.push_back(m);
        }
        o.b.insert(o.b.end(), x.b.begin(), x.b.end());
    }
    static void scalar(Bytes & b, const Value & v)
    {
        if (v.wire == VARINT) return varint(b, v.value);
        for (int i = 0; i < (v.wire == FIXED32 ? 4 : 8); ++i) b.push_back(static_cast<unsigned char>(v.value >> (8 * i)));
    }
    // tag, length, payload; the mark's enclosing end is set by message()
    Out delimited(unsigned number, const Out & payload, unsigned depth)
    {
        Out o;
        varint(o.b, std::uint64_t(number) * 8 + LENGTH);
        Mark m{};
        m.length_at = o.b.size();
        varint(o.b, payload.b.size());
        m.length_size = o.b.size() - m.length_at;
        m.payload = o.b.size();
        m.end = m.payload + payload.b.size();
        m.depth = depth;
        append(o, payload);
        o.marks.push_back(m);
        return o;
    }
    Out value(unsigned number, const Value & v, unsigned depth)
    {
        if (!v.msg.empty()) return delimited(number, message(v.msg[0], depth + 1), depth);
        Out o;
        if (v.wire == LENGTH) {
            longest = std::max(longest, v.bytes.size());
            o.b = v.bytes;
            return delimited(number, o, depth);
        }
        varint(o.b, std::uint64_t(number) * 8 + v.wire);
        scalar(o.b, v);
        return o;
    }
    bool flip(unsigned a, unsigned b) { return s && s->flip(a, b); }
    Out message(const Msg & m, unsigned depth)
    {
        std::vector<std::vector<Out>> fields; // pieces of each field, in order
        for (auto & f : m.fields) {
            fields.emplace_back();
            auto & pieces = fields.back();
            if (f.kind == Field::REPEATED && f.packable) {
                for (std::size_t i = 0; i < f.items.size();) {
                    if (flip(1, 4)) { // one item alone
                        pieces.push_back(value(f.number, f.items[i++], depth));
                        ++split;
                        continue;
                    }
                    auto n = f.items.size() - i;
                    if (flip(1, 3)) { n = 1 + s->below(n); ++split; }
                    Out packed;
                    while (n--) scalar(packed.b, f.items[i++]);
                    longest = std::max(longest, packed.b.size());
                    pieces.push_back(delimited(f.number, packed, depth));
                }
                if (f.items.empty() && flip(1, 8)) pieces.push_back(delimited(f.number, Out{}, depth));
                continue;
            }
            for (auto & e : f.earlier) { pieces.push_back(value(f.number, e, depth)); ++overridden; }
            for (auto & i : f.items) {
                if (f.kind == Field::SINGLE && f.earlier.empty() && i.is_default() && (!s || flip(1, 2)) && i.msg.empty()) continue;
                pieces.push_back(value(f.number, i, depth));
            }
        }
        while (flip(1, 5)) { // a field the reader does not know
            unsigned n;
            switch (s->below(3)) {
            case 0: n = unsigned(1 + s->below(30)); break;
            case 1: n = unsigned(1 + s->below(5000)); break;
            default: n = unsigned(1 + s->below((1u << 29) - 1)); break;
            }
            while (std::any_of(m.fields.begin(), m.fields.end(), [&](auto & f) { return f.number == n; })) n = n == (1u << 29) - 1 ? 1 : n + 1;
            Value v;
            const int wires[] = {VARINT, FIXED64, LENGTH, FIXED32};
            v.wire = s->pick(wires);
            v.value = s->interesting(64);
            if (v.wire == LENGTH) {
                std::size_t length = s->small(20);
                if (!depth && s->flip(1, 300)) length = 65500 + s->below(100); // beyond 16 bits
                else if (!depth && s->flip(1, 300)) length = 16300 + s->below(200); // a length of three bytes
                v.bytes = random_bytes(*s, std::min<std::size_t>(length, 200));
                v.bytes.resize(length, 0x0a);
            }
            auto l = longest;
            fields.push_back({});
            fields.back().push_back(value(n, v, depth));
            longest = l;
            ++unknown;
        }
        Out o;
        std::vector<std::size_t> next(fields.size());
        std::size_t left = 0;
        for (auto & f : fields) left += f.size();
        bool shuffled = flip(2, 3);
        std::size_t k = 0;
        while (left) {
            if (shuffled) {
                k = s->below(fields.size());
                while (next[k] == fields[k].size()) k = (k + 1) % fields.size();
            } else {
                while (next[k] == fields[k].size()) ++k;
            }
            append(o, fields[k][next[k]++]);
            --left;
        }
        // (what is inside a nested message without fields is skipped as a whole)
        if (depth && m.fields.empty()) o.marks.clear();
        for (auto & x : o.marks) if (x.depth == depth) x.enclosing_end = o.b.size();
        return o;
    }
};

inline std::size_t prefix_size(model::Cfg c, std::size_t n)
{
    Enc e;
    e.cfg = c;
    if (c.size != model::SP_NONE) e.size(n);
    return e.out.size();
}
inline Bytes framed(model::Cfg c, const Bytes & body)
{
    Enc e;
    e.cfg = c;
    if (c.size != model::SP_NONE) e.size(body.size());
    e.raw(body.data(), body.size());
    return std::move(e.out);
}
} // namespace pb
namespace cfgs
{
ARCHIVE_CFG(nosize, std::byte, vb, false, model::SP_NONE, true, no_size{})
ARCHIVE_CFG(big_nosize, unsigned char, vu, true, model::SP_NONE, true, e::big{}, no_size{})
ARCHIVE_CFG(little_svarint, std::byte, vb, false, model::SP_VARINT, true, size_varint{}, e::little{})
} // namespace cfgs
