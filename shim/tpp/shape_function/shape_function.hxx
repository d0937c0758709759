/* Stand-in for the submodule TPP (tensor product polynomials), which is empty in this checkout.
 * Only what the local solvers of HyperHDG call is provided, following the meaning their comments give
 * it: Legendre polynomials that are orthonormal on [0,1], tensor products with the first direction
 * running fastest. */
#pragma once
#include <array>
#include <cmath>
#include <cstddef>

namespace TPP
{
constexpr unsigned int stand_in_pow(unsigned int base, unsigned int exponent)
{
  return exponent == 0 ? 1 : base * stand_in_pow(base, exponent - 1);
}
namespace ShapeType
{
template <unsigned int degree>
struct Legendre
{
  static constexpr unsigned int n_fun() { return degree + 1; }
  static constexpr unsigned int dim() { return 1; }
  static void eval(const double x, double (&val)[degree + 1], double (&der)[degree + 1])
  {
    const double t = 2. * x - 1.;
    double p[degree + 2], dp[degree + 2];
    p[0] = 1.;
    dp[0] = 0.;
    p[1] = t;
    dp[1] = 1.;
    for (unsigned int n = 1; n < degree; ++n)
    {
      p[n + 1] = ((2. * n + 1.) * t * p[n] - n * p[n - 1]) / (n + 1.);
      dp[n + 1] = dp[n - 1] + (2. * n + 1.) * p[n];
    }
    for (unsigned int n = 0; n <= degree; ++n)
    {
      val[n] = std::sqrt(2. * n + 1.) * p[n];
      der[n] = 2. * std::sqrt(2. * n + 1.) * dp[n];
    }
  }
};
template <typename Shape1D, unsigned int dimT>
struct Tensorial
{
  typedef Shape1D shape_1d;
  static constexpr unsigned int n_fun() { return stand_in_pow(Shape1D::n_fun(), dimT); }
  static constexpr unsigned int dim() { return dimT; }
};
}  // namespace ShapeType

template <typename ShapeT>
struct ShapeFunction
{
  typedef ShapeT shape_fun_t;
  typedef typename ShapeT::shape_1d shape_1d;
  static constexpr unsigned int n_fun() { return ShapeT::n_fun(); }
  static constexpr unsigned int dim() { return ShapeT::dim(); }

  template <typename return_t, typename PointT>
  static return_t fct_val(unsigned int index, const PointT& point)
  {
    double res = 1.;
    for (unsigned int d = 0; d < dim(); ++d)
    {
      double v[shape_1d::n_fun()], w[shape_1d::n_fun()];
      shape_1d::eval((double)point[d], v, w);
      res *= v[index % shape_1d::n_fun()];
      index /= shape_1d::n_fun();
    }
    return (return_t)res;
  }
  template <typename return_t, typename PointT>
  static return_t der_val(unsigned int index, const PointT& point, const unsigned int der_dim)
  {
    double res = 1.;
    for (unsigned int d = 0; d < dim(); ++d)
    {
      double v[shape_1d::n_fun()], w[shape_1d::n_fun()];
      shape_1d::eval((double)point[d], v, w);
      res *= d == der_dim ? w[index % shape_1d::n_fun()] : v[index % shape_1d::n_fun()];
      index /= shape_1d::n_fun();
    }
    return (return_t)res;
  }
  /// The value keeps the precision of the coefficients, so that the checks see what was computed.
  template <typename return_t, typename CoeffsT, typename PointT>
  static double lin_comb_fct_val(const CoeffsT& coeffs, const PointT& point)
  {
    double res = 0.;
    for (unsigned int i = 0; i < n_fun(); ++i)
      res += (double)coeffs[i] * fct_val<double>(i, point);
    return res;
  }
};
}  // namespace TPP
