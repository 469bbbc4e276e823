// Stand-in for parallel-hashmap (not installed here): the same interface over std::unordered_map/std::set.
// A parallel map with a real mutex type is split into submaps, each protected by such a mutex, exactly where
// parallel-hashmap locks; with the default null mutex it is unsynchronised, also like the original.
// The iteration order of a hash map is unspecified: phmap::shim_salt lets a simulated run permute it.
#pragma once
#include <cstddef>
#include <cstdint>
#include <functional>
#include <memory>
#include <mutex>
#include <array>
#include <initializer_list>
#include <set>
#include <string>
#include <tuple>
#include <type_traits>
#include <unordered_map>
#include <unordered_set>
#include <utility>
#include <vector>

namespace phmap
{
inline std::size_t& shim_salt_ref() noexcept
{
    static std::size_t salt = 0;
    return salt;
}

template <typename T>
struct Hash;

namespace shim
{
template <typename T, typename = void>
struct std_hashable : std::false_type
{};
template <typename T>
struct std_hashable<T, std::enable_if_t<std::is_default_constructible_v<std::hash<T>> &&
                                        std::is_invocable_r_v<std::size_t, std::hash<T>, const T&>>> : std::true_type
{};
inline std::size_t mix(std::size_t x) noexcept
{
    x ^= x >> 32;
    x *= 0xd6e8feb86659fd93ULL;
    x ^= x >> 32;
    return x;
}
}  // namespace shim

template <typename T>
struct Hash
{
    std::size_t operator()(const T& v) const
    {
        if constexpr (shim::std_hashable<T>::value)
        {
            return std::hash<T>{}(v);
        }
        else
        {
            return hash_value(v);
        }
    }
};
template <typename A, typename B>
struct Hash<std::pair<A, B>>
{
    std::size_t operator()(const std::pair<A, B>& p) const
    {
        if constexpr (shim::std_hashable<std::pair<A, B>>::value)
        {
            return std::hash<std::pair<A, B>>{}(p);
        }
        else
        {
            return shim::mix(Hash<A>{}(p.first)) * 31 + Hash<B>{}(p.second);
        }
    }
};

template <typename T>
using EqualTo = std::equal_to<T>;

class NullMutex
{
  public:
    void lock() noexcept {}
    void unlock() noexcept {}
    bool try_lock() noexcept { return true; }
};

namespace priv
{
template <typename T>
using hash_default_hash = Hash<T>;
template <typename T>
using hash_default_eq = std::equal_to<T>;
template <typename T>
using Allocator = std::allocator<T>;

template <typename H>
struct salted : H
{
    std::size_t salt = shim_salt_ref();
    template <typename T>
    std::size_t operator()(const T& v) const
    {
        const std::size_t h = static_cast<const H&>(*this)(v);
        return salt ? shim::mix(h ^ salt) : h;
    }
};
}  // namespace priv

template <typename K, typename V, typename H = priv::hash_default_hash<K>, typename E = priv::hash_default_eq<K>,
          typename A = std::allocator<std::pair<const K, V>>>
class flat_hash_map : public std::unordered_map<K, V, priv::salted<H>, E>
{
    using base = std::unordered_map<K, V, priv::salted<H>, E>;

  public:
    using base::base;
    flat_hash_map() = default;
    template <typename F>
    bool if_contains(const K& k, F&& f) const
    {
        const auto it = this->find(k);
        if (it == this->end())
        {
            return false;
        }
        std::forward<F>(f)(*it);
        return true;
    }
};
template <typename K, typename V, typename H = priv::hash_default_hash<K>, typename E = priv::hash_default_eq<K>,
          typename A = std::allocator<std::pair<const K, V>>>
using node_hash_map = flat_hash_map<K, V, H, E, A>;

template <typename T, typename H = priv::hash_default_hash<T>, typename E = priv::hash_default_eq<T>,
          typename A = std::allocator<T>>
class flat_hash_set : public std::unordered_set<T, priv::salted<H>, E>
{
    using base = std::unordered_set<T, priv::salted<H>, E>;

  public:
    using base::base;
    flat_hash_set() = default;
};
template <typename T, typename H = priv::hash_default_hash<T>, typename E = priv::hash_default_eq<T>,
          typename A = std::allocator<T>>
using node_hash_set = flat_hash_set<T, H, E, A>;

namespace priv
{
// shared part of the parallel containers: 2^N submaps, each with its own mutex
template <typename Sub, typename K, std::size_t N, typename M>
class parallel_base
{
  protected:
    static constexpr std::size_t count_subs = std::is_same_v<M, NullMutex> ? 1 : (std::size_t{1} << N);
    struct inner
    {
        Sub       set;
        mutable M mtx;
        inner() = default;
        inner(const inner& o)
        {
            const std::scoped_lock l{o.mtx};
            set = o.set;
        }
        inner(inner&& o) : set{std::move(o.set)} {}
        inner& operator=(const inner& o)
        {
            if (this != &o)
            {
                Sub tmp;
                {
                    const std::scoped_lock l{o.mtx};
                    tmp = o.set;
                }
                const std::scoped_lock l{mtx};
                set = std::move(tmp);
            }
            return *this;
        }
        inner& operator=(inner&& o)
        {
            set = std::move(o.set);
            return *this;
        }
    };
    std::array<inner, count_subs> subs{};
    inner&                   sub(const K& k)
    {
        return subs[count_subs == 1 ? 0 : shim::mix(typename Sub::hasher{}(k)) % count_subs];
    }
    const inner& sub(const K& k) const
    {
        return subs[count_subs == 1 ? 0 : shim::mix(typename Sub::hasher{}(k)) % count_subs];
    }

  public:
    using value_type      = typename Sub::value_type;
    using size_type       = std::size_t;
    using key_type        = K;
    using reference       = value_type&;
    using const_reference = const value_type&;
    using difference_type = std::ptrdiff_t;
    using hasher          = typename Sub::hasher;

    template <bool Const>
    class iter
    {
        using owner_t = std::conditional_t<Const, const parallel_base, parallel_base>;
        using sub_it  = std::conditional_t<Const, typename Sub::const_iterator, typename Sub::iterator>;
        owner_t*    o = nullptr;
        std::size_t i = 0;
        sub_it      it{};
        friend class parallel_base;
        template <bool>
        friend class iter;
        void settle()
        {
            while (i < count_subs && it == o->subs[i].set.end())
            {
                ++i;
                if (i < count_subs)
                {
                    it = o->subs[i].set.begin();
                }
            }
        }

      public:
        using iterator_category = std::forward_iterator_tag;
        using value_type        = typename Sub::value_type;
        using difference_type   = std::ptrdiff_t;
        using reference         = decltype(*std::declval<sub_it>());
        using pointer           = decltype(std::declval<sub_it>().operator->());
        iter()                  = default;
        iter(owner_t* own, std::size_t idx, sub_it s, bool skip = true) : o{own}, i{idx}, it{s}
        {
            if (skip)
            {
                settle();
            }
        }
        template <bool C2, typename = std::enable_if_t<Const && !C2>>
        iter(const iter<C2>& x) : o{x.o}, i{x.i}, it{x.it}
        {}
        reference operator*() const { return *it; }
        pointer   operator->() const { return it.operator->(); }
        iter&     operator++()
        {
            ++it;
            settle();
            return *this;
        }
        iter operator++(int)
        {
            iter c = *this;
            ++*this;
            return c;
        }
        friend bool operator==(const iter& a, const iter& b)
        {
            return a.i == b.i && (a.i >= count_subs || a.it == b.it);
        }
        friend bool operator!=(const iter& a, const iter& b) { return !(a == b); }
    };
    using iterator       = iter<false>;
    using const_iterator = iter<true>;

    iterator       begin() { return iterator{this, 0, subs[0].set.begin()}; }
    iterator       end() { return iterator{this, count_subs, {}, false}; }
    const_iterator begin() const { return const_iterator{this, 0, subs[0].set.begin()}; }
    const_iterator end() const { return const_iterator{this, count_subs, {}, false}; }
    const_iterator cbegin() const { return begin(); }
    const_iterator cend() const { return end(); }

    std::size_t size() const
    {
        std::size_t n = 0;
        for (const auto& s : subs)
        {
            const std::scoped_lock l{s.mtx};
            n += s.set.size();
        }
        return n;
    }
    bool empty() const { return size() == 0; }
    void clear()
    {
        for (auto& s : subs)
        {
            const std::scoped_lock l{s.mtx};
            s.set.clear();
        }
    }
    void reserve(std::size_t n)
    {
        for (auto& s : subs)
        {
            const std::scoped_lock l{s.mtx};
            s.set.reserve(n / count_subs + 1);
        }
    }
    iterator find(const K& k)
    {
        auto&                  s = sub(k);
        const std::scoped_lock l{s.mtx};
        auto                   it = s.set.find(k);
        return it == s.set.end() ? end() : iterator{this, static_cast<std::size_t>(&s - subs.data()), it, false};
    }
    const_iterator find(const K& k) const
    {
        const auto&            s = sub(k);
        const std::scoped_lock l{s.mtx};
        auto                   it = s.set.find(k);
        return it == s.set.end() ? end() : const_iterator{this, static_cast<std::size_t>(&s - subs.data()), it, false};
    }
    bool contains(const K& k) const
    {
        const auto&            s = sub(k);
        const std::scoped_lock l{s.mtx};
        return s.set.find(k) != s.set.end();
    }
    std::size_t count_of(const K& k) const { return contains(k) ? 1 : 0; }
    std::size_t erase(const K& k)
    {
        auto&                  s = sub(k);
        const std::scoped_lock l{s.mtx};
        return s.set.erase(k);
    }
    iterator erase(iterator it)
    {
        auto& s = subs[it.i];
        auto  n = s.set.erase(it.it);
        return iterator{this, it.i, n};
    }
    std::pair<iterator, bool> insert(const value_type& v)
    {
        return do_insert(v);
    }
    std::pair<iterator, bool> insert(value_type&& v)
    {
        return do_insert(std::move(v));
    }
    template <typename It>
    void insert(It b, It e)
    {
        for (; b != e; ++b)
        {
            insert(*b);
        }
    }
    template <typename... A>
    std::pair<iterator, bool> emplace(A&&... a)
    {
        value_type v(std::forward<A>(a)...);
        return do_insert(std::move(v));
    }
    void swap(parallel_base& o)
    {
        std::swap(subs, o.subs);
    }
    friend bool operator==(const parallel_base& a, const parallel_base& b)
    {
        if (a.size() != b.size())
        {
            return false;
        }
        for (const auto& s : a.subs)
        {
            for (const auto& x : s.set)
            {
                bool f = false;
                for (const auto& t : b.subs)
                {
                    auto it = t.set.find(key_of(x));
                    if (it != t.set.end() && *it == x)
                    {
                        f = true;
                    }
                }
                if (!f)
                {
                    return false;
                }
            }
        }
        return true;
    }
    friend bool operator!=(const parallel_base& a, const parallel_base& b) { return !(a == b); }

  protected:
    static const K& key_of(const K& k) { return k; }
    template <typename P>
    static const K& key_of(const P& p)
        requires requires { p.second; }
    {
        return p.first;
    }
    template <typename W>
    std::pair<iterator, bool> do_insert(W&& v)
    {
        auto&                  s = sub(key_of(v));
        const std::scoped_lock l{s.mtx};
        auto                   r = s.set.insert(std::forward<W>(v));
        return {iterator{this, static_cast<std::size_t>(&s - subs.data()), r.first, false}, r.second};
    }
};
}  // namespace priv

template <typename K, typename V, typename H = priv::hash_default_hash<K>, typename E = priv::hash_default_eq<K>,
          typename A = std::allocator<std::pair<const K, V>>, std::size_t N = 4, typename M = NullMutex>
class parallel_flat_hash_map : public priv::parallel_base<flat_hash_map<K, V, H, E>, K, N, M>
{
    using base = priv::parallel_base<flat_hash_map<K, V, H, E>, K, N, M>;

  public:
    using mapped_type = V;
    using typename base::const_iterator;
    using typename base::iterator;
    using typename base::value_type;
    parallel_flat_hash_map() = default;
    parallel_flat_hash_map(std::initializer_list<value_type> l)
    {
        for (const auto& v : l)
        {
            this->insert(v);
        }
    }
    template <typename It>
    parallel_flat_hash_map(It b, It e)
    {
        for (; b != e; ++b)
        {
            this->insert(*b);
        }
    }
    template <typename... X>
    std::pair<iterator, bool> try_emplace(const K& k, X&&... x)
    {
        auto&                  s = this->sub(k);
        const std::scoped_lock l{s.mtx};
        auto                   r = s.set.try_emplace(k, std::forward<X>(x)...);
        return {iterator{this, static_cast<std::size_t>(&s - this->subs.data()), r.first, false}, r.second};
    }
    template <typename X>
    std::pair<iterator, bool> insert_or_assign(const K& k, X&& x)
    {
        auto&                  s = this->sub(k);
        const std::scoped_lock l{s.mtx};
        auto                   r = s.set.insert_or_assign(k, std::forward<X>(x));
        return {iterator{this, static_cast<std::size_t>(&s - this->subs.data()), r.first, false}, r.second};
    }
    V& operator[](const K& k)
    {
        auto&                  s = this->sub(k);
        const std::scoped_lock l{s.mtx};
        return s.set[k];
    }
    V& at(const K& k)
    {
        auto&                  s = this->sub(k);
        const std::scoped_lock l{s.mtx};
        return s.set.at(k);
    }
    const V& at(const K& k) const
    {
        auto&                  s = this->sub(k);
        const std::scoped_lock l{s.mtx};
        return s.set.at(k);
    }
    template <typename F>
    bool if_contains(const K& k, F&& f) const
    {
        const auto&            s = this->sub(k);
        const std::scoped_lock l{s.mtx};
        const auto             it = s.set.find(k);
        if (it == s.set.end())
        {
            return false;
        }
        std::forward<F>(f)(*it);
        return true;
    }
    template <typename F>
    bool modify_if(const K& k, F&& f)
    {
        auto&                  s = this->sub(k);
        const std::scoped_lock l{s.mtx};
        auto                   it = s.set.find(k);
        if (it == s.set.end())
        {
            return false;
        }
        std::forward<F>(f)(*it);
        return true;
    }
    template <typename F, typename... X>
    bool try_emplace_l(const K& k, F&& f, X&&... x)
    {
        auto&                  s = this->sub(k);
        const std::scoped_lock l{s.mtx};
        auto                   r = s.set.try_emplace(k, std::forward<X>(x)...);
        if (!r.second)
        {
            std::forward<F>(f)(*r.first);
        }
        return r.second;
    }
    template <typename F1, typename F2>
    bool lazy_emplace_l(const K& k, F1&& f1, F2&& f2)
    {
        auto&                  s = this->sub(k);
        const std::scoped_lock l{s.mtx};
        auto                   it = s.set.find(k);
        if (it != s.set.end())
        {
            std::forward<F1>(f1)(*it);
            return false;
        }
        std::forward<F2>(f2)([&s](auto&&... a) { s.set.emplace(std::forward<decltype(a)>(a)...); });
        return true;
    }
    template <typename F>
    bool erase_if(const K& k, F&& f)
    {
        auto&                  s = this->sub(k);
        const std::scoped_lock l{s.mtx};
        auto                   it = s.set.find(k);
        if (it == s.set.end() || !std::forward<F>(f)(*it))
        {
            return false;
        }
        s.set.erase(it);
        return true;
    }
    template <typename F>
    void for_each(F&& f) const
    {
        for (const auto& s : this->subs)
        {
            const std::scoped_lock l{s.mtx};
            for (const auto& v : s.set)
            {
                f(v);
            }
        }
    }
    template <typename F>
    void for_each_m(F&& f)
    {
        for (auto& s : this->subs)
        {
            const std::scoped_lock l{s.mtx};
            for (auto& v : s.set)
            {
                f(v);
            }
        }
    }
    std::size_t count(const K& k) const { return this->count_of(k); }
};
template <typename K, typename V, typename H = priv::hash_default_hash<K>, typename E = priv::hash_default_eq<K>,
          typename A = std::allocator<std::pair<const K, V>>, std::size_t N = 4, typename M = NullMutex>
using parallel_node_hash_map = parallel_flat_hash_map<K, V, H, E, A, N, M>;

template <typename T, typename H = priv::hash_default_hash<T>, typename E = priv::hash_default_eq<T>,
          typename A = std::allocator<T>, std::size_t N = 4, typename M = NullMutex>
class parallel_flat_hash_set : public priv::parallel_base<flat_hash_set<T, H, E>, T, N, M>
{
  public:
    parallel_flat_hash_set() = default;
    parallel_flat_hash_set(std::initializer_list<T> l)
    {
        for (const auto& v : l)
        {
            this->insert(v);
        }
    }
    template <typename It>
    parallel_flat_hash_set(It b, It e)
    {
        for (; b != e; ++b)
        {
            this->insert(*b);
        }
    }
    std::size_t count(const T& k) const { return this->count_of(k); }
};
}  // namespace phmap
