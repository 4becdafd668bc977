// Containers of the user's own, and classes derived from the standard ones.
#pragma once
#include "model.hpp"

namespace u
{
// contiguous
template <typename T>
class vec
{
public:
    using value_type = T;
    using iterator = T *;
    using const_iterator = const T *;
    vec() = default;
    vec(const vec & o) { resize(o.n); std::copy(o.begin(), o.end(), begin()); }
    vec(vec && o) noexcept : p(std::move(o.p)), n(std::exchange(o.n, 0)) {}
    vec & operator=(vec o) noexcept { p.swap(o.p); std::swap(n, o.n); return *this; }
    std::size_t size() const { return n; }
    T * data() { return p.get(); }
    const T * data() const { return p.get(); }
    T * begin() { return p.get(); }
    T * end() { return p.get() + n; }
    const T * begin() const { return p.get(); }
    const T * end() const { return p.get() + n; }
    T & operator[](std::size_t i) { return p[i]; }
    const T & operator[](std::size_t i) const { return p[i]; }
    void clear() { resize(0); }
    void resize(std::size_t k)
    {
        if (k == n) return;
        auto q = std::make_unique<T[]>(k); // exactly k elements
        for (std::size_t i = 0; i < std::min(n, k); ++i) q[i] = std::move(p[i]);
        p = std::move(q);
        n = k;
    }
private:
    std::unique_ptr<T[]> p;
    std::size_t n = 0;
};
// linked
template <typename T>
class chain
{
public:
    using value_type = T;
    using iterator = typename std::list<T>::iterator;
    using const_iterator = typename std::list<T>::const_iterator;
    std::size_t size() const { return c.size(); }
    auto begin() { return c.begin(); }
    auto end() { return c.end(); }
    auto begin() const { return c.begin(); }
    auto end() const { return c.end(); }
    void clear() { c.clear(); }
    void resize(std::size_t k) { c.resize(k); }
private:
    std::list<T> c;
};
template <typename T> struct derived_vec : std::vector<T> { using std::vector<T>::vector; };
template <typename K, typename V> struct derived_map : std::map<K, V> { using std::map<K, V>::map; };
} // namespace u
namespace model
{
template <typename T> struct M<u::vec<T>> : SeqModel<u::vec<T>> {};
template <typename T> struct M<u::chain<T>> : SeqModel<u::chain<T>> {};
template <typename T> struct M<u::derived_vec<T>> : SeqModel<u::derived_vec<T>> {};
template <typename K, typename V> struct M<u::derived_map<K, V>> : AssocModel<u::derived_map<K, V>, true> {};
} // namespace model
