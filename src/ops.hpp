// Type erased operations over (type, archive configuration) pairs.
#pragma once
#include "model.hpp"

// Which operations a check needs (others are not instantiated).
#ifndef OPS_MASK
#define OPS_MASK 15
#endif
namespace ops
{
enum : unsigned { N_GROW = 1, N_FIXED = 2, N_READ = 4, N_LIMITED = 8, N_FAULT = 16 };
using model::Bytes;
using model::Cfg;
using model::Enc;
using model::G;

struct Res
{
    std::errc code;
    std::size_t pos;
};

// What happened under injected memory exhaustion.
struct Fault
{
    bool threw;
    Res first;              // the position after throwing, too
    std::size_t size;       // the buffer's size then
    Bytes held;             // and its content
    std::size_t requests;   // memory requests of the call, when none failed
    Res again;              // the repeated call
};

enum : unsigned { F_HOSTILE = 1, F_ORDERED = 2, F_MESSAGE = 4 }; // F_MESSAGE: protobuf messages inside

struct Ops
{
    const char * type;
    const char * cfg_name;
    Cfg cfg;
    unsigned flags;
    std::size_t max_len;
    void * (*make)();
    void (*destroy)(void *);
    void (*gen)(void *, G &);
    void (*enc)(const void *, Enc &);
    bool (*eq)(const void *, const void *);
    // growing output: buf holds the initial contents on entry and the final ones on return
    Res (*write_grow)(const void *, Bytes & buf, std::size_t pos);
    // output into exactly [p, p+n)
    Res (*write_fixed)(const void *, unsigned char * p, std::size_t n, std::size_t pos);
    // input from exactly [p, p+n)
    Res (*read)(void *, const unsigned char * p, std::size_t n, std::size_t pos);
    // the same with alloc_limit<hostile_limit>
    Res (*read_limited)(void *, const unsigned char * p, std::size_t n, std::size_t pos);
    // write_grow and read where the fail_at-th memory request throws (0: none); then the same again without it, on the same archive
    Fault (*write_fault)(const void *, Bytes & buf, std::size_t pos, std::size_t fail_at);
    Fault (*read_fault)(void *, const unsigned char * p, std::size_t n, std::size_t pos, std::size_t fail_at);
};
constexpr std::size_t hostile_limit = 1 << 16;

const Ops * const * all(std::size_t & n);
void add(const Ops *);

// A value of an erased type.
struct Value
{
    const Ops & o;
    void * p;
    explicit Value(const Ops & o) : o(o), p(o.make()) {}
    Value(const Value &) = delete;
    ~Value() { o.destroy(p); }
    void gen(eng::Src & s)
    {
        G g{s};
        gen(g);
    }
    void gen(G & g) { g.limit(o.max_len); o.gen(p, g); }
    Bytes enc() const
    {
        Enc e;
        e.cfg = o.cfg;
        o.enc(p, e);
        return std::move(e.out);
    }
    bool eq(const Value & b) const { return o.eq(p, b.p); }
};

// Heap memory of exactly n bytes, so that the sanitizer sees any access outside it.
struct Exact
{
    unsigned char * p;
    std::size_t n;
    explicit Exact(std::size_t n) : p(static_cast<unsigned char *>(std::malloc(n ? n : 1))), n(n) {}
    Exact(const unsigned char * src, std::size_t n) : Exact(n) { if (n) std::memcpy(p, src, n); }
    explicit Exact(const Bytes & b) : Exact(b.data(), b.size()) {}
    Exact(const Exact &) = delete;
    ~Exact() { std::free(p); }
};

template <typename T, typename C>
struct Impl
{
    using M = model::M<T>;
    using byte = typename C::byte;
    static void * make() { return new T(M::fresh()); }
    static void destroy(void * p) { delete static_cast<T *>(p); }
    static void gen(void * p, G & g) { M::gen(g, *static_cast<T *>(p)); }
    static void enc(const void * p, Enc & e) { M::enc(*static_cast<const T *>(p), e); }
    static bool eq(const void * a, const void * b) { return M::eq(*static_cast<const T *>(a), *static_cast<const T *>(b)); }
    static Res write_grow(const void * v, Bytes & buf, std::size_t pos)
    {
        typename C::container data(reinterpret_cast<const byte *>(buf.data()),
                                   reinterpret_cast<const byte *>(buf.data()) + buf.size());
        auto out = C::out(data);
        out.reset(pos);
        std::errc r = out(*static_cast<const T *>(v));
        auto end = out.position();
        auto b = reinterpret_cast<const unsigned char *>(data.data());
        buf.assign(b, b + data.size());
        return {r, end};
    }
    static Res write_fixed(const void * v, unsigned char * p, std::size_t n, std::size_t pos)
    {
        std::span<byte> s{reinterpret_cast<byte *>(p), n};
        auto out = C::out(s);
        out.reset(pos);
        std::errc r = out(*static_cast<const T *>(v));
        return {r, out.position()};
    }
    static Res read(void * v, const unsigned char * p, std::size_t n, std::size_t pos)
    {
        std::span<const byte> s{reinterpret_cast<const byte *>(p), n};
        auto in = C::in(s);
        in.reset(pos);
        std::errc r = in(*static_cast<T *>(v));
        return {r, in.position()};
    }
    static Res read_limited(void * v, const unsigned char * p, std::size_t n, std::size_t pos)
    {
        if constexpr (C::limited) {
            std::span<const byte> s{reinterpret_cast<const byte *>(p), n};
            auto in = C::in(s, zpp::bits::alloc_limit<hostile_limit>{});
            in.reset(pos);
            std::errc r = in(*static_cast<T *>(v));
            return {r, in.position()};
        } else {
            return read(v, p, n, pos);
        }
    }
    static bool guarded(Fault & f, std::size_t fail_at, auto && call)
    {
        constexpr std::size_t never = std::size_t{1} << 40;
        eng::alloc_fail_in = fail_at ? fail_at : never;
        try {
            f.first.code = call();
        } catch (const std::bad_alloc &) {
            f.threw = true;
        } catch (...) {
            eng::alloc_fail_in = 0;
            throw;
        }
        if (!fail_at) f.requests = never - eng::alloc_fail_in;
        eng::alloc_fail_in = 0;
        return !f.threw;
    }
    static Fault write_fault(const void * v, Bytes & buf, std::size_t pos, std::size_t fail_at)
    {
        Fault f{};
        typename C::container data(reinterpret_cast<const byte *>(buf.data()), reinterpret_cast<const byte *>(buf.data()) + buf.size());
        auto out = C::out(data);
        out.reset(pos);
        guarded(f, fail_at, [&]() -> std::errc { return out(*static_cast<const T *>(v)); });
        f.first.pos = out.position();
        auto b = reinterpret_cast<const unsigned char *>(data.data());
        f.size = data.size();
        f.held.assign(b, b + data.size());
        if (f.threw) {
            out.reset(pos);
            f.again.code = out(*static_cast<const T *>(v));
            f.again.pos = out.position();
            b = reinterpret_cast<const unsigned char *>(data.data());
        }
        buf.assign(b, b + data.size());
        return f;
    }
    static Fault read_fault(void * v, const unsigned char * p, std::size_t n, std::size_t pos, std::size_t fail_at)
    {
        Fault f{};
        std::span<const byte> s{reinterpret_cast<const byte *>(p), n};
        auto in = C::in(s);
        in.reset(pos);
        guarded(f, fail_at, [&]() -> std::errc { return in(*static_cast<T *>(v)); });
        f.first.pos = in.position();
        f.size = in.data().size();
        if (f.threw) {
            in.reset(pos);
            f.again.code = in(*static_cast<T *>(v));
            f.again.pos = in.position();
        }
        return f;
    }
    static constexpr std::size_t max_len =
        C::cfg.size == model::SP_1 ? 255 : C::cfg.size == model::SP_2 ? 65535 : 300000;
};
template <typename T, typename C>
struct Register
{
    Ops o;
    Register(const char * t, bool hostile, bool ordered, bool message = false)
    {
        using I = Impl<T, C>;
        o = {t, C::name, C::cfg,
             (hostile ? F_HOSTILE : 0u) | (ordered ? F_ORDERED : 0u) | (message ? F_MESSAGE : 0u), I::max_len,
             &I::make, &I::destroy, &I::gen, &I::enc, &I::eq,
             nullptr, nullptr, nullptr, nullptr, nullptr, nullptr};
        if constexpr (OPS_MASK & N_GROW) o.write_grow = &I::write_grow;
        if constexpr (OPS_MASK & N_FIXED) o.write_fixed = &I::write_fixed;
        if constexpr (OPS_MASK & N_READ) o.read = &I::read;
        if constexpr (OPS_MASK & N_LIMITED) o.read_limited = &I::read_limited;
        if constexpr (OPS_MASK & N_FAULT) { o.write_fault = &I::write_fault; o.read_fault = &I::read_fault; }
        add(&o);
    }
};
} // namespace ops

// An archive configuration: name, byte type, growing container, model configuration, options.
#define ARCHIVE_CFG(NAME, BYTE, CONTAINER, SWAP, SIZE, LIMITED, ...)                               \
    struct NAME                                                                                    \
    {                                                                                              \
        using byte = BYTE;                                                                         \
        using container = CONTAINER;                                                               \
        static constexpr bool limited = LIMITED;                                                   \
        static constexpr model::Cfg cfg{SWAP, SIZE};                                               \
        static constexpr const char * name = #NAME;                                                \
        static constexpr auto out(auto & b, auto... o) { return zpp::bits::out{b __VA_OPT__(,) __VA_ARGS__, std::move(o)...}; } \
        static constexpr auto in(auto & b, auto... o) { return zpp::bits::in{b __VA_OPT__(,) __VA_ARGS__, std::move(o)...}; }   \
    };
