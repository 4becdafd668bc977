// A stand-in for the zpp::throwing library (not installed here): coroutines that stop at the first error.
// A coroutine runs when it is called; a failing co_await or a co_yield of a code ends it with that code.
#pragma once
#include <coroutine>
#include <optional>
#include <system_error>
#include <type_traits>
#include <utility>

namespace zpp
{
struct void_type {};
inline constexpr void_type void_v{};

template <typename T> class throwing;

struct throwing_promise_base
{
    std::errc failed{};
    std::suspend_never initial_suspend() noexcept { return {}; }
    std::suspend_always final_suspend() noexcept { return {}; }
    void unhandled_exception() { throw; }
    std::suspend_always yield_value(std::errc code) noexcept { failed = code; return {}; }
};
template <typename T> struct throwing_promise : throwing_promise_base
{
    std::optional<T> value;
    throwing<T> get_return_object();
    template <typename U> void return_value(U && u) { value.emplace(std::forward<U>(u)); }
};
template <> struct throwing_promise<void> : throwing_promise_base
{
    std::optional<void_type> value;
    throwing<void> get_return_object();
    void return_void() { value.emplace(); }
};

template <typename T>
class [[nodiscard]] throwing
{
public:
    using promise_type = throwing_promise<T>;
    using stored = std::conditional_t<std::is_void_v<T>, void_type, T>;
    using handle_type = std::coroutine_handle<promise_type>;

    constexpr throwing(std::errc code) : m_code(code) {}
    template <typename U> requires(!std::is_same_v<std::remove_cvref_t<U>, throwing> && !std::is_same_v<std::remove_cvref_t<U>, std::errc> && std::is_constructible_v<stored, U>)
    constexpr throwing(U && u) : m_value(std::forward<U>(u)) {}
    explicit throwing(handle_type h) : m_handle(h) {}
    constexpr throwing(throwing && o) noexcept : m_handle(std::exchange(o.m_handle, handle_type{})), m_code(o.m_code), m_value(std::move(o.m_value)) {}
    throwing & operator=(throwing &&) = delete;
    constexpr ~throwing() { if (m_handle) m_handle.destroy(); }

    constexpr std::errc code() const { return m_handle ? m_handle.promise().failed : m_code; }
    constexpr bool await_ready() const { return code() == std::errc{}; }
    template <typename Promise> void await_suspend(std::coroutine_handle<Promise> outer) { outer.promise().failed = code(); }
    constexpr T await_resume()
    {
        if constexpr (!std::is_void_v<T>) return std::move(m_handle ? *m_handle.promise().value : *m_value);
    }
private:
    handle_type m_handle{};
    std::errc m_code{};
    std::optional<stored> m_value{};
};
template <typename T> throwing<T> throwing_promise<T>::get_return_object() { return throwing<T>{std::coroutine_handle<throwing_promise>::from_promise(*this)}; }
inline throwing<void> throwing_promise<void>::get_return_object() { return throwing<void>{std::coroutine_handle<throwing_promise>::from_promise(*this)}; }
} // namespace zpp
