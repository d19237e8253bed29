#pragma once
#include <algorithm>
#include <iterator>
#include <numeric>
namespace absl {
#define C1_(n) template <typename C, typename... A> inline auto c_##n(C &&c, A &&...a) { return std::n(std::begin(c), std::end(c), std::forward<A>(a)...); }
C1_(any_of) C1_(all_of) C1_(none_of) C1_(for_each) C1_(find_if) C1_(find_if_not) C1_(count) C1_(count_if) C1_(copy) C1_(copy_if) C1_(transform) C1_(sort) C1_(stable_sort) C1_(is_sorted) C1_(reverse) C1_(fill) C1_(lower_bound) C1_(upper_bound) C1_(equal_range) C1_(binary_search) C1_(min_element) C1_(max_element) C1_(minmax_element) C1_(accumulate) C1_(adjacent_find) C1_(partition) C1_(stable_partition) C1_(is_partitioned) C1_(replace) C1_(replace_if) C1_(rotate) C1_(iota) C1_(find)
#undef C1_
template <typename A, typename B> inline bool c_equal(const A &a, const B &b) { return std::equal(std::begin(a), std::end(a), std::begin(b), std::end(b)); }
template <typename C, typename V> inline bool c_linear_search(const C &c, V &&v) { return std::find(std::begin(c), std::end(c), v) != std::end(c); }
template <typename C, typename V> inline bool c_contains(const C &c, V &&v) { return std::find(std::begin(c), std::end(c), v) != std::end(c); }
#define C2_(n) template <typename A, typename B, typename O, typename... R> inline auto c_##n(const A &a, const B &b, O o, R &&...r) { return std::n(std::begin(a), std::end(a), std::begin(b), std::end(b), o, std::forward<R>(r)...); }
C2_(set_difference) C2_(set_union) C2_(set_intersection) C2_(set_symmetric_difference) C2_(merge)
#undef C2_
template <typename A, typename B> inline bool c_includes(const A &a, const B &b) { return std::includes(std::begin(a), std::end(a), std::begin(b), std::end(b)); }
template <typename A, typename B> inline auto c_search(A &a, const B &b) { return std::search(std::begin(a), std::end(a), std::begin(b), std::end(b)); }
template <typename A, typename B> inline auto c_mismatch(A &a, B &b) { return std::mismatch(std::begin(a), std::end(a), std::begin(b), std::end(b)); }
}
