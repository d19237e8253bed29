// Ordered and unordered containers on contiguous storage: like absl's, any
// insertion or removal may move the elements.
#pragma once
#include <algorithm>
#include <cstddef>
#include <functional>
#include <initializer_list>
#include <iterator>
#include <string>
#include <string_view>
#include <type_traits>
#include <utility>
#include <vector>
#include <tuple>
#include <new>
#include <cstdlib>
// (out-of-range access reported through the library assertion)
namespace absl_shim {
template <typename T> class Seq {  // growable array of non-assignable T
 public:
  T *p = nullptr; size_t n = 0, cap = 0;
  Seq() {} Seq(const Seq &o) { reserve(o.n); for (size_t i = 0; i < o.n; ++i) new (p + i) T(o.p[i]); n = o.n; }
  Seq(Seq &&o) noexcept : p(o.p), n(o.n), cap(o.cap) { o.p = nullptr; o.n = o.cap = 0; }
  Seq &operator=(Seq o) { std::swap(p, o.p); std::swap(n, o.n); std::swap(cap, o.cap); return *this; }
  ~Seq() { clear(); ::operator delete((void *)p); }
  void clear() { for (size_t i = 0; i < n; ++i) p[i].~T(); n = 0; }
  void reserve(size_t c) { if (c <= cap) return; regrow(c); }
  void regrow(size_t c) { T *q = (T *)::operator new(c * sizeof(T)); for (size_t i = 0; i < n; ++i) { new (q + i) T(std::move(p[i])); p[i].~T(); } ::operator delete((void *)p); p = q; cap = c; }
  // every insertion reallocates, so that stale references are found out
  template <typename... A> T *emplace(size_t at, A &&...a) {
    size_t c = n + 1; T *q = (T *)::operator new(c * sizeof(T)); new (q + at) T(std::forward<A>(a)...);
    for (size_t i = 0; i < n; ++i) { size_t j = i < at ? i : i + 1; new (q + j) T(std::move(p[i])); p[i].~T(); }
    ::operator delete((void *)p); p = q; cap = c; ++n; return p + at;
  }
  void erase(size_t at) { p[at].~T(); for (size_t i = at; i + 1 < n; ++i) { new (p + i) T(std::move(p[i + 1])); p[i + 1].~T(); } --n; }
};
template <typename K> struct DefLess { using type = std::less<K>; };
template <> struct DefLess<std::string> { using type = std::less<>; };
template <> struct DefLess<std::string_view> { using type = std::less<>; };

template <typename K, typename V> struct MapTraits { using key = K; using value = std::pair<const K, V>; using mutable_ref = value; static const K &k(const value &v) { return v.first; } };
template <typename K> struct SetTraits { using key = K; using value = K; using mutable_ref = const K; static const K &k(const value &v) { return v; } };

template <typename Tr, typename Less, bool Ordered> class Table {
 public:
  using K = typename Tr::key; using value_type = typename Tr::value; using key_type = K; using size_type = size_t; using difference_type = ptrdiff_t;
  using reference = value_type &; using const_reference = const value_type &;
  template <typename T> struct It {
    using iterator_category = std::conditional_t<Ordered, std::bidirectional_iterator_tag, std::forward_iterator_tag>; using value_type = std::remove_const_t<T>; using difference_type = ptrdiff_t; using pointer = T *; using reference = T &;
    T *p = nullptr;
    It() {} explicit It(T *q) : p(q) {} template <typename U> It(const It<U> &o) requires std::is_convertible_v<U *, T *> : p(o.p) {}
    T &operator*() const { return *p; } T *operator->() const { return p; }
    It &operator++() { ++p; return *this; } It operator++(int) { It r = *this; ++p; return r; } It &operator--() { --p; return *this; } It operator--(int) { It r = *this; --p; return r; }
    friend bool operator==(const It &a, const It &b) { return a.p == b.p; }
  };
  using iterator = It<typename Tr::mutable_ref>; using const_iterator = It<const value_type>;
  using reverse_iterator = std::reverse_iterator<iterator>; using const_reverse_iterator = std::reverse_iterator<const_iterator>;
  Table() {} explicit Table(Less l) : less_(l) {}
  Table(std::initializer_list<value_type> l) { for (const auto &x : l) insert(x); }
  template <typename I> Table(I a, I b) { for (; a != b; ++a) insert(*a); }
  iterator begin() { return iterator(s_.p); } iterator end() { return iterator(s_.p + s_.n); }
  const_iterator begin() const { return const_iterator(s_.p); } const_iterator end() const { return const_iterator(s_.p + s_.n); }
  const_iterator cbegin() const { return begin(); } const_iterator cend() const { return end(); }
  reverse_iterator rbegin() { return reverse_iterator(end()); } reverse_iterator rend() { return reverse_iterator(begin()); }
  const_reverse_iterator rbegin() const { return const_reverse_iterator(end()); } const_reverse_iterator rend() const { return const_reverse_iterator(begin()); }
  size_t size() const { return s_.n; } bool empty() const { return s_.n == 0; } void clear() { s_ = Seq<value_type>(); } void reserve(size_t) {}
  template <typename Q> size_t lower(const Q &q) const { size_t a = 0, b = s_.n; while (a < b) { size_t m = (a + b) / 2; if (less_(Tr::k(s_.p[m]), q)) a = m + 1; else b = m; } return a; }
  template <typename Q> size_t upper(const Q &q) const { size_t a = 0, b = s_.n; while (a < b) { size_t m = (a + b) / 2; if (less_(q, Tr::k(s_.p[m]))) b = m; else a = m + 1; } return a; }
  template <typename Q> bool pos(const Q &q, size_t *at) const {
    if constexpr (Ordered) { *at = lower(q); return *at < s_.n && !less_(q, Tr::k(s_.p[*at])); }
    else { for (size_t i = 0; i < s_.n; ++i) if (Tr::k(s_.p[i]) == q) { *at = i; return true; } *at = s_.n; return false; }
  }
  template <typename Q = K> iterator find(const Q &q) { size_t i; return pos(q, &i) ? at_(i) : end(); }
  template <typename Q = K> const_iterator find(const Q &q) const { size_t i; return pos(q, &i) ? const_iterator(s_.p + i) : end(); }
  template <typename Q = K> bool contains(const Q &q) const { size_t i; return pos(q, &i); }
  template <typename Q = K> size_t count(const Q &q) const { return contains(q); }
  template <typename Q = K> iterator lower_bound(const Q &q) requires Ordered { return at_(lower(q)); }
  template <typename Q = K> const_iterator lower_bound(const Q &q) const requires Ordered { return const_iterator(s_.p + lower(q)); }
  template <typename Q = K> iterator upper_bound(const Q &q) requires Ordered { return at_(upper(q)); }
  template <typename Q = K> const_iterator upper_bound(const Q &q) const requires Ordered { return const_iterator(s_.p + upper(q)); }
  template <typename Q = K> std::pair<iterator, iterator> equal_range(const Q &q) { size_t i; if (!pos(q, &i)) return {at_(i), at_(i)}; return {at_(i), at_(i + 1)}; }
  template <typename Q = K> std::pair<const_iterator, const_iterator> equal_range(const Q &q) const { size_t i; bool f = pos(q, &i); return {const_iterator(s_.p + i), const_iterator(s_.p + i + f)}; }
  std::pair<iterator, bool> insert(const value_type &v) { size_t i; if (pos(Tr::k(v), &i)) return {at_(i), false}; value_type c(v); s_.emplace(i, std::move(c)); return {at_(i), true}; }
  std::pair<iterator, bool> insert(value_type &&v) { size_t i; if (pos(Tr::k(v), &i)) return {at_(i), false}; value_type c(std::move(v)); s_.emplace(i, std::move(c)); return {at_(i), true}; }
  iterator insert(const_iterator, const value_type &v) { return insert(v).first; }
  iterator insert(const_iterator, value_type &&v) { return insert(std::move(v)).first; }
  template <typename I> void insert(I a, I b) requires(!std::is_convertible_v<I, const value_type &>) { for (; a != b; ++a) emplace(*a); }
  void insert(std::initializer_list<value_type> l) { for (const auto &x : l) insert(x); }
  template <typename... A> std::pair<iterator, bool> emplace(A &&...a) { return insert(value_type(std::forward<A>(a)...)); }
  template <typename... A> iterator emplace_hint(const_iterator, A &&...a) { return emplace(std::forward<A>(a)...).first; }
  iterator erase(const_iterator it) { size_t i = it.p - s_.p; s_.erase(i); return at_(i); }
  iterator erase(iterator it) requires(!std::is_same_v<iterator, const_iterator>) { size_t i = it.p - s_.p; s_.erase(i); return at_(i); }
  iterator erase(const_iterator a, const_iterator b) { size_t i = a.p - s_.p, k = b.p - a.p; while (k--) s_.erase(i); return at_(i); }
  template <typename Q = K> size_t erase(const Q &q) requires(!std::is_convertible_v<Q, const_iterator>) { size_t i; if (!pos(q, &i)) return 0; s_.erase(i); return 1; }
  template <typename F> friend size_t erase_if(Table &t, F f) { size_t c = 0; for (size_t i = 0; i < t.s_.n;) if (f(t.s_.p[i])) { t.s_.erase(i); ++c; } else ++i; return c; }
  void swap(Table &o) { std::swap(s_, o.s_); }
  template <typename O> void merge(O &o) { for (auto it = o.begin(); it != o.end();) { if (insert(*it).second) it = o.erase(it); else ++it; } }
  friend bool operator==(const Table &a, const Table &b) { if (a.size() != b.size()) return false; if constexpr (Ordered) { for (size_t i = 0; i < a.size(); ++i) if (!(a.s_.p[i] == b.s_.p[i])) return false; return true; } else { for (const auto &x : a) { auto it = b.find(Tr::k(x)); if (it == b.end() || !(*it == x)) return false; } return true; } }
  friend bool operator<(const Table &a, const Table &b) { return std::lexicographical_compare(a.begin(), a.end(), b.begin(), b.end()); }
 protected:
  iterator at_(size_t i) { return iterator(s_.p + i); }
  Seq<value_type> s_; [[no_unique_address]] Less less_;
};
template <typename K, typename V, typename Less, bool O> class MapTable : public Table<MapTraits<K, V>, Less, O> {
  using B = Table<MapTraits<K, V>, Less, O>;
 public:
  using B::B; using mapped_type = V; using typename B::iterator;
  template <typename Q, typename... A> std::pair<iterator, bool> try_emplace(Q &&k, A &&...a) { size_t i; if (this->pos(k, &i)) return {this->at_(i), false}; std::pair<const K, V> c(std::piecewise_construct, std::forward_as_tuple(std::forward<Q>(k)), std::forward_as_tuple(std::forward<A>(a)...)); this->s_.emplace(i, std::move(c)); return {this->at_(i), true}; }
  template <typename Q, typename W> std::pair<iterator, bool> insert_or_assign(Q &&k, W &&v) { auto r = try_emplace(std::forward<Q>(k)); r.first->second = std::forward<W>(v); return r; }
  template <typename Q = K> V &operator[](Q &&k) { return try_emplace(std::forward<Q>(k)).first->second; }
  V &operator[](const K &k) { return try_emplace(k).first->second; }
  template <typename Q = K> V &at(const Q &k) { auto it = this->find(k); if (it == this->end()) abort(); return it->second; }
  template <typename Q = K> const V &at(const Q &k) const { auto it = this->find(k); if (it == this->end()) abort(); return it->second; }
};
}
