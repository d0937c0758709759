// Stand-in for the submodule TPCC (tensor product chain complexes), which is not available offline: the part of its
// interface that HyperHDG uses, written from HyperHDG's calls and their documentation. The checks never rely on the
// order in which cells or directions are numbered; TPCC_DESCENDING selects another one.
#pragma once
#include <array>
#include <cassert>
#include <cstddef>
namespace TPCC
{
template <typename T>
constexpr T binomial(T n, T k)
{
  if (k > n)
    return 0;
  T r = 1;
  for (T i = 1; i <= k; ++i)
    r = r * (n - k + i) / i;
  return r;
}
enum class boundaries
{
  both,
  lower,
  upper,
  none
};
/// k-dimensional cell of an n-dimensional grid: directions it extends along, lower corner.
template <int n, int k, typename S, typename T>
class Element
{
 public:
  static constexpr unsigned int n_val = n, k_val = k;
  std::array<bool, n> along{};
  std::array<S, n> corner{};
  unsigned int along_direction(const unsigned int i) const { return find(i, true); }
  unsigned int across_direction(const unsigned int i) const { return find(i, false); }
  S along_coordinate(const unsigned int i) const { return corner[find(i, true)]; }
  S across_coordinate(const unsigned int i) const { return corner[find(i, false)]; }
  static constexpr unsigned int n_facets() { return 2 * k; }
  Element<n, k - 1, S, T> facet(const unsigned int i) const
  {
    Element<n, k - 1, S, T> f;
    f.along = along;
    f.corner = corner;
    const unsigned int d = along_direction(i / 2);
    f.along[d] = false;
    f.corner[d] += i % 2;
    return f;
  }
  /// Number of the set of directions among all sets of k directions.
  unsigned int direction_index() const
  {
    unsigned int r = 0, seen = 0;
    for (int d = 0; d < n; ++d)
      if (along[d])
        r += binomial<unsigned int>(d, ++seen);
    return r;
  }
  /// Inverse of direction_index().
  static std::array<bool, n> directions(unsigned int index)
  {
    std::array<bool, n> r{};
    int need = k;
    for (int d = n - 1; d >= 0; --d)
      if (need > 0 && index >= binomial<unsigned int>(d, need))
      {
        index -= binomial<unsigned int>(d, need--);
        r[d] = true;
      }
    return r;
  }

 private:
  unsigned int find(unsigned int i, const bool which) const
  {
#ifdef TPCC_DESCENDING
    for (int d = n - 1; d >= 0; --d)
#else
    for (int d = 0; d < n; ++d)
#endif
      if (along[d] == which && i-- == 0)
        return d;
    assert(false);
    return 0;
  }
};
template <int n, int k, boundaries bnd, typename B, typename S, typename T>
class Lexicographic
{
  std::array<B, n> counts_{};
  static constexpr int extra = bnd == boundaries::both ? 1 : bnd == boundaries::none ? -1 : 0;
  static constexpr int shift = bnd == boundaries::upper || bnd == boundaries::none ? 1 : 0;
  static constexpr unsigned int n_blocks() { return binomial<unsigned int>(n, k); }
  B range(const std::array<bool, n>& along, const int d) const { return along[d] ? counts_[d] : counts_[d] + extra; }
  B block_size(const unsigned int b) const
  {
    const auto a = Element<n, k, S, T>::directions(b);
    B s = 1;
    for (int d = 0; d < n; ++d)
      s *= range(a, d);
    return s;
  }

 public:
  typedef Element<n, k, S, T> value_type;
  Lexicographic() = default;
  template <typename A>
  Lexicographic(const A& counts)
  {
    for (int d = 0; d < n; ++d)
      counts_[d] = counts[d];
  }
  const std::array<B, n>& counts() const { return counts_; }
  B size() const
  {
    B s = 0;
    for (unsigned int b = 0; b < n_blocks(); ++b)
      s += block_size(b);
    return s;
  }
  value_type operator[](B index) const
  {
    unsigned int b = 0;
    while (index >= block_size(b))
      index -= block_size(b++);
    value_type e;
    e.along = value_type::directions(b);
    for (int d = 0; d < n; ++d)
    {
      e.corner[d] = index % range(e.along, d) + (e.along[d] ? 0 : shift);
      index /= range(e.along, d);
    }
    return e;
  }
  B index(const value_type& e) const
  {
    B r = 0, f = 1;
    for (int d = 0; d < n; ++d)
    {
      r += f * (e.corner[d] - (e.along[d] ? 0 : shift));
      f *= range(e.along, d);
    }
    for (unsigned int b = 0; b < e.direction_index(); ++b)
      r += block_size(b);
    return r;
  }
  /// Index among the cells of the same direction with the same coordinates across.
  B index_in_slice(const value_type& e) const
  {
    B r = 0, f = 1;
    for (int d = 0; d < n; ++d)
      if (e.along[d])
      {
        r += f * e.corner[d];
        f *= counts_[d];
      }
    return r;
  }
  template <boundaries b2>
  Lexicographic<n, k - 1, b2, B, S, T> boundary() const
  {
    return Lexicographic<n, k - 1, b2, B, S, T>(counts_);
  }
};
}  // namespace TPCC
