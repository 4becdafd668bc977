#pragma once
#include "engine.hpp"
#include "ops.hpp"
#include <string>
#include <vector>
using model::Bytes;
using ops::Exact;
using ops::Ops;
using ops::Res;
using ops::Value;

inline std::string hex(const void * p, std::size_t n, std::size_t max = 48)
{
    std::string s;
    auto b = static_cast<const unsigned char *>(p);
    char t[4];
    for (std::size_t i = 0; i < n && i < max; ++i) { std::snprintf(t, sizeof t, "%02x", b[i]); s += t; }
    if (n > max) s += "..(" + std::to_string(n) + ")";
    return s;
}
inline std::string hex(const Bytes & b, std::size_t max = 48) { return hex(b.data(), b.size(), max); }
inline std::string sh(const char * s, std::size_t max = 200) { std::string r = s; if (r.size() > max) { r.resize(max); r += "..."; } return r; }

inline Bytes random_bytes(eng::Src & s, std::size_t n)
{
    Bytes b(n);
    std::uint64_t x = s.bits();
    for (std::size_t i = 0; i < n; ++i) {
        if (i % 8 == 0 && i) x = x * 0x9e3779b97f4a7c15ull + 0x1234567;
        b[i] = static_cast<unsigned char>(x >> (i % 8 * 8));
    }
    return b;
}
inline const char * code_name(std::errc e)
{
    switch (e) {
    case static_cast<std::errc>(0): return "success";
    case std::errc::result_out_of_range: return "result_out_of_range";
    case std::errc::no_buffer_space: return "no_buffer_space";
    case std::errc::value_too_large: return "value_too_large";
    case std::errc::message_size: return "message_size";
    case std::errc::not_supported: return "not_supported";
    case std::errc::bad_message: return "bad_message";
    case std::errc::invalid_argument: return "invalid_argument";
    case std::errc::protocol_error: return "protocol_error";
    default: return "other";
    }
}
inline const Ops & pick_ops(eng::Ctx & c)
{
    std::size_t n;
    auto all = ops::all(n);
    auto & o = *all[c.src.below(n)];
    return o;
}
inline bool same(std::errc a, std::errc b) { return a == b; }
constexpr std::errc OK{};
inline bool equal_bytes(const void * a, const void * b, std::size_t n) { return !n || !__builtin_memcmp(a, b, n); }
