#pragma once
#include "pbt.hxx"
#include <HyperHDG/dense_la.hxx>

namespace dl
{
template <typename T>
constexpr double eps()
{
  return (double)std::numeric_limits<T>::epsilon();
}
/// Reference matrix: row-major long double, independent of the library.
struct Ref
{
  unsigned r, c;
  std::vector<long double> a;
  Ref(unsigned r_, unsigned c_) : r(r_), c(c_), a((size_t)r_ * c_, 0.L) {}
  long double& at(unsigned i, unsigned j) { return a[(size_t)i * c + j]; }
  long double at(unsigned i, unsigned j) const { return a[(size_t)i * c + j]; }
};
inline Ref mul(const Ref& x, const Ref& y)
{
  Ref z(x.r, y.c);
  for (unsigned i = 0; i < x.r; ++i)
    for (unsigned j = 0; j < y.c; ++j)
      for (unsigned k = 0; k < std::min(x.c, y.r); ++k)
        z.at(i, j) += x.at(i, k) * y.at(k, j);
  return z;
}
inline Ref tr(const Ref& x)
{
  Ref z(x.c, x.r);
  for (unsigned i = 0; i < x.r; ++i)
    for (unsigned j = 0; j < x.c; ++j)
      z.at(j, i) = x.at(i, j);
  return z;
}
/// Determinant and (if wanted) reciprocal condition estimate by full pivoting in long double.
inline long double det(Ref m, long double* growth = nullptr)
{
  long double d = 1;
  unsigned n = m.r;
  std::vector<unsigned> cols(n);
  long double first = 0, last = 0;
  for (unsigned k = 0; k < n; ++k)
  {
    unsigned p = k, q = k;
    for (unsigned i = k; i < n; ++i)
      for (unsigned j = k; j < n; ++j)
        if (std::abs(m.at(i, j)) > std::abs(m.at(p, q)))
          p = i, q = j;
    if (p != k)
    {
      d = -d;
      for (unsigned j = 0; j < n; ++j)
        std::swap(m.at(p, j), m.at(k, j));
    }
    if (q != k)
    {
      d = -d;
      for (unsigned i = 0; i < n; ++i)
        std::swap(m.at(i, q), m.at(i, k));
    }
    long double piv = m.at(k, k);
    if (k == 0)
      first = std::abs(piv);
    last = std::abs(piv);
    d *= piv;
    if (piv == 0)
      break;
    for (unsigned i = k + 1; i < n; ++i)
    {
      long double f = m.at(i, k) / piv;
      for (unsigned j = k; j < n; ++j)
        m.at(i, j) -= f * m.at(k, j);
    }
  }
  if (growth)
    *growth = first == 0 ? 0 : last / first;
  return d;
}
template <unsigned R, unsigned C, typename T>
Ref ref(const SmallMat<R, C, T>& m)
{
  Ref z(R, C);
  for (unsigned j = 0; j < C; ++j)
    for (unsigned i = 0; i < R; ++i)
      z.at(i, j) = (long double)m.data()[j * R + i];
  return z;
}
template <unsigned R, unsigned C, typename T>
std::string show(const SmallMat<R, C, T>& m)
{
  std::ostringstream o;
  o << std::setprecision(9) << "[";
  for (unsigned i = 0; i < R; ++i)
  {
    if (i)
      o << "; ";
    for (unsigned j = 0; j < C; ++j)
      o << (j ? " " : "") << m.data()[j * R + i];
  }
  o << "]";
  return o.str();
}
template <unsigned R, unsigned C, typename T>
SmallMat<R, C, T> gen_mat(pbt::Gen& g, bool wide = false)
{
  SmallMat<R, C, T> m;
  unsigned kind = (unsigned)g.raw(7);  // 6: sparse, 7: constant columns / duplicates
  for (unsigned i = 0; i < R * C; ++i)
    m.data()[i] = (T)(kind == 6 && g.raw(1) == 0 ? 0. : (wide ? g.real_wide() : g.real()));
  if (kind == 7 && C > 1)
    for (unsigned i = 0; i < R; ++i)
      m.data()[R + i] = m.data()[i];
  return m;
}
template <unsigned R, unsigned C, typename T>
bool any_nonzero(const SmallMat<R, C, T>& m)
{
  for (auto x : m.data())
    if (x != 0)
      return true;
  return false;
}
template <unsigned R, unsigned C, typename T>
void same_bits(const SmallMat<R, C, T>& a, const SmallMat<R, C, T>& b, const char* what)
{
  for (unsigned i = 0; i < R * C; ++i)
    CHECK(a.data()[i] == b.data()[i], what << " entry " << i << " got " << a.data()[i] << " expected "
                                           << b.data()[i] << " in " << R << "x" << C);
}
/// Elementwise: the result must be exactly f(i,j) evaluated in T.
template <unsigned R, unsigned C, typename T, typename F>
void elementwise(const SmallMat<R, C, T>& got, F f, const char* what)
{
  for (unsigned j = 0; j < C; ++j)
    for (unsigned i = 0; i < R; ++i)
    {
      const T e = (T)f(i, j), v = got.data()[j * R + i];
      CHECK(std::abs((double)v - (double)e) <= 4 * eps<T>() * std::abs((double)e),
            what << " at (" << i << "," << j << ") of " << R << "x" << C << ": got " << v
                 << ", expected " << e);
    }
}
/// Product-like results: |got - ref| <= (K+2) eps * absref
template <unsigned R, unsigned C, typename T>
void approx(const SmallMat<R, C, T>& got, const Ref& x, const Ref& xabs, unsigned K, const char* what)
{
  for (unsigned j = 0; j < C; ++j)
    for (unsigned i = 0; i < R; ++i)
    {
      const double v = got.data()[j * R + i];
      CHECK(std::abs(v - (double)x.at(i, j)) <= (2. * K + 4) * eps<T>() * (double)xabs.at(i, j) + 1e-300,
            what << " at (" << i << "," << j << ") of " << R << "x" << C << ": got " << v
                 << ", expected " << (double)x.at(i, j));
    }
}
inline Ref absr(Ref x)
{
  for (auto& v : x.a)
    v = std::abs(v);
  return x;
}
}  // namespace dl
