// Minimal stand-in for the Kokkos mdspan reference implementation (which is not
// installed in this sandbox).  It provides only what MACIS uses: dynamic
// extents, column-major (layout_left) and strided layouts, submdspan with
// std::pair / full_extent slices.
#pragma once
#include <algorithm>
#include <array>
#include <cassert>
#include <cstddef>
#include <cstdint>
#include <cstdlib>
#include <type_traits>
#include <tuple>
#include <utility>
#include <limits>
#include <memory>
#include <stdexcept>

#define MDSPAN_IMPL_STANDARD_NAMESPACE Kokkos
#define MDSPAN_IMPL_PROPOSED_NAMESPACE Experimental

namespace Kokkos {

struct full_extent_t {};
inline constexpr full_extent_t full_extent{};
struct layout_left {};
struct layout_stride {};

template <class Idx, std::size_t R>
struct dextents {
  using index_type = Idx;
  static constexpr std::size_t rank() { return R; }
};

template <class T, class Extents, class Layout = layout_left>
class mdspan {
 public:
  using element_type = T;
  using value_type = std::remove_cv_t<T>;
  using index_type = typename Extents::index_type;
  using size_type = std::size_t;
  using extents_type = Extents;
  using layout_type = Layout;
  static constexpr std::size_t R = Extents::rank();

  mdspan() = default;
  template <class... I, std::enable_if_t<sizeof...(I) == R, int> = 0>
  explicit mdspan(T* p, I... e) : p_(p), e_{static_cast<index_type>(e)...} {
    index_type s = 1;
    for(std::size_t i = 0; i < R; ++i) {
      s_[i] = s;
      s *= e_[i];
    }
  }
  mdspan(T* p, std::array<index_type, R> e, std::array<index_type, R> s)
      : p_(p), e_(e), s_(s) {}
  // const-adding and layout-changing conversions; a layout_left view must be
  // contiguous
  template <class U, class L,
            std::enable_if_t<std::is_convertible_v<U (*)[], T (*)[]>, int> = 0>
  mdspan(const mdspan<U, Extents, L>& o)
      : p_(o.data_handle()), e_(o.extents_()), s_(o.strides_()) {
    if constexpr(std::is_same_v<Layout, layout_left>) {
      index_type s = 1;
      for(std::size_t i = 0; i < R; ++i) {
        if(e_[i] > 1 && s_[i] != s) std::abort();
        s_[i] = s;
        s *= e_[i];
      }
    }
  }

  template <class... I>
  T& operator()(I... i) const {
    static_assert(sizeof...(I) == R);
    const index_type idx[] = {static_cast<index_type>(i)...};
    index_type off = 0;
    for(std::size_t k = 0; k < R; ++k) off += idx[k] * s_[k];
    return p_[off];
  }
  static constexpr std::size_t rank() { return R; }
  index_type extent(std::size_t r) const { return e_[r]; }
  index_type stride(std::size_t r) const { return s_[r]; }
  size_type size() const {
    size_type n = 1;
    for(auto x : e_) n *= x;
    return n;
  }
  bool empty() const { return size() == 0; }
  T* data_handle() const { return p_; }
  const std::array<index_type, R>& extents_() const { return e_; }
  const std::array<index_type, R>& strides_() const { return s_; }

 private:
  T* p_ = nullptr;
  std::array<index_type, R> e_{};
  std::array<index_type, R> s_{};
};

namespace Experimental {
namespace detail_ {
template <class I>
std::pair<I, I> slice(full_extent_t, I ext) {
  return {0, ext};
}
template <class I, class A, class B>
std::pair<I, I> slice(const std::pair<A, B>& p, I) {
  return {static_cast<I>(p.first), static_cast<I>(p.second)};
}
}  // namespace detail_
template <class T, class E, class L, class... S>
auto submdspan(const mdspan<T, E, L>& m, S... sl) {
  using I = typename E::index_type;
  constexpr std::size_t R = E::rank();
  static_assert(sizeof...(S) == R);
  std::array<I, R> ext, str = m.strides_();
  std::size_t k = 0, off = 0;
  auto one = [&](auto s) {
    auto [a, b] = detail_::slice<I>(s, m.extent(k));
    ext[k] = b - a;
    off += a * str[k];
    ++k;
  };
  (one(sl), ...);
  return mdspan<T, E, layout_stride>(m.data_handle() + off, ext, str);
}
}  // namespace Experimental
using Experimental::submdspan;
}  // namespace Kokkos
