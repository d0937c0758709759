/* Stand-in for TPP's tensorial quadrature (see shape_function.hxx).
 *
 * phi_i: shape function on the hyperedge, psi_i: shape function on a face. Integrals that receive a
 * geometry are over the mapped hyperedge or face; "Uni" ones and those without geometry are over the
 * reference hypercube. Gradients are taken in the local coordinates y = R xi of the geometry. */
#pragma once
#include <tpp/shape_function/shape_function.hxx>

namespace TPP
{
namespace Quadrature
{
template <unsigned int degree>
struct GaussLegendre
{
  static constexpr unsigned int n_points() { return degree / 2 + 1; }  // exact for this degree
  static void fill(double (&pts)[degree / 2 + 1], double (&wts)[degree / 2 + 1])
  {
    constexpr unsigned int n = degree / 2 + 1;
    for (unsigned int k = 0; k < n; ++k)
    {
      double t = std::cos(M_PI * (k + 0.75) / (n + 0.5)), dp = 1.;
      for (unsigned int it = 0; it < 100; ++it)
      {
        double p0 = 1., p1 = t;
        for (unsigned int m = 1; m < n; ++m)
        {
          const double p2 = ((2. * m + 1.) * t * p1 - m * p0) / (m + 1.);
          p0 = p1;
          p1 = p2;
        }
        dp = n * (t * p1 - p0) / (t * t - 1.);
        t -= p1 / dp;
      }
      pts[n - 1 - k] = 0.5 * (1. + t);
      wts[n - 1 - k] = 1. / ((1. - t * t) * dp * dp);
    }
  }
};

template <typename QuadratureT, typename ShapeFunT, typename return_tT = double>
struct Tensorial
{
  typedef return_tT return_t;
  typedef ShapeFunT shape_fun_t;
  static constexpr unsigned int dim() { return ShapeFunT::dim(); }
  static constexpr unsigned int n_quad_points() { return QuadratureT::n_points(); }

 private:
  static constexpr unsigned int D = ShapeFunT::dim();
  static constexpr unsigned int N = ShapeFunT::n_fun();
  static constexpr unsigned int NF = ShapeFunT::shape_1d::n_fun();
  static constexpr unsigned int NB = stand_in_pow(NF, D - 1);
  static constexpr unsigned int QV = stand_in_pow(QuadratureT::n_points(), D);
  static constexpr unsigned int QB = stand_in_pow(QuadratureT::n_points(), D - 1);
  struct Table
  {
    std::array<std::array<double, D>, QV> x;
    std::array<double, QV> w;
    std::array<std::array<double, N>, QV> phi;
    std::array<std::array<std::array<double, D>, N>, QV> dphi;
    std::array<std::array<std::array<double, D>, QB>, 2 * D> bx;
    std::array<double, QB> bw;
    std::array<std::array<std::array<double, N>, QB>, 2 * D> bphi;
    std::array<std::array<std::array<std::array<double, D>, N>, QB>, 2 * D> bdphi;
    std::array<std::array<double, NB>, QB> bpsi;
    Table()
    {
      double p[QuadratureT::n_points()], q[QuadratureT::n_points()];
      QuadratureT::fill(p, q);
      typedef ShapeFunction<ShapeType::Tensorial<typename ShapeFunT::shape_1d, D - 1> > psi_t;
      for (unsigned int k = 0; k < QV; ++k)
      {
        w[k] = 1.;
        for (unsigned int d = 0, m = k; d < D; ++d, m /= QuadratureT::n_points())
        {
          x[k][d] = p[m % QuadratureT::n_points()];
          w[k] *= q[m % QuadratureT::n_points()];
        }
        for (unsigned int i = 0; i < N; ++i)
        {
          phi[k][i] = ShapeFunT::template fct_val<double>(i, x[k]);
          for (unsigned int d = 0; d < D; ++d)
            dphi[k][i][d] = ShapeFunT::template der_val<double>(i, x[k], d);
        }
      }
      for (unsigned int k = 0; k < QB; ++k)
      {
        bw[k] = 1.;
        std::array<double, D> sub{};
        for (unsigned int d = 0, m = k; d + 1 < D; ++d, m /= QuadratureT::n_points())
        {
          sub[d] = p[m % QuadratureT::n_points()];
          bw[k] *= q[m % QuadratureT::n_points()];
        }
        for (unsigned int j = 0; j < NB; ++j)
          bpsi[k][j] = psi_t::template fct_val<double>(j, sub);
        for (unsigned int f = 0; f < 2 * D; ++f)
        {
          for (unsigned int d = 0, s = 0; d < D; ++d)
            bx[f][k][d] = d == f / 2 ? (double)(f % 2) : sub[s++];
          for (unsigned int i = 0; i < N; ++i)
          {
            bphi[f][k][i] = ShapeFunT::template fct_val<double>(i, bx[f][k]);
            for (unsigned int d = 0; d < D; ++d)
              bdphi[f][k][i][d] = ShapeFunT::template der_val<double>(i, bx[f][k], d);
          }
        }
      }
    }
  };
  static const Table& t()
  {
    static const Table table;
    return table;
  }
  template <typename PointT, typename PointRefT, typename GeomT>
  static PointT phys(const std::array<double, D>& x, const GeomT& geom)
  {
    PointRefT p;
    for (unsigned int d = 0; d < D; ++d)
      p[d] = (return_t)x[d];
    const PointRefT& cp = p;
    return PointT(geom.map_ref_to_phys(cp));
  }
  /// R^{-T} v for the upper triangular matrix R of the geometry.
  template <typename MatT>
  static std::array<double, D> rt_inv(const MatT& r, const std::array<double, D>& v)
  {
    std::array<double, D> y;
    for (unsigned int i = 0; i < D; ++i)
    {
      y[i] = v[i];
      for (unsigned int k = 0; k < i; ++k)
        y[i] -= (double)r(k, i) * y[k];
      y[i] /= (double)r(i, i);
    }
    return y;
  }
  template <typename A, typename B>
  static double dot(const A& a, const B& b, const unsigned int n)
  {
    double s = 0.;
    for (unsigned int i = 0; i < n; ++i)
      s += (double)a[i] * (double)b[i];
    return s;
  }
  template <typename F>
  static double vol(const F& f)
  {
    double s = 0.;
    for (unsigned int k = 0; k < QV; ++k)
      s += t().w[k] * f(k);
    return s;
  }
  template <typename F>
  static double bdr(const F& f)
  {
    double s = 0.;
    for (unsigned int k = 0; k < QB; ++k)
      s += t().bw[k] * f(k);
    return s;
  }
  template <typename PointRefT>
  struct ref_pt
  {
    typedef PointRefT type;
  };
  template <typename PointT, typename GeomT>
  static PointT direction(const int comp, const GeomT& geom)
  {
    PointT res;
    if (comp > 0)
    {
      const auto q = geom.mat_q();
      for (unsigned int d = 0; d < GeomT::space_dim(); ++d)
        res[d] = q(d, comp - 1);
    }
    else
    {
      const auto n = geom.outer_normal(-comp - 1);
      for (unsigned int d = 0; d < GeomT::space_dim(); ++d)
        res[d] = n[d];
    }
    return res;
  }
#define TPP_PT(x) phys<PointT, PointRefT>(x, geom)

 public:
  // Reference element -----------------------------------------------------------------------------
  static return_t integrate_vol_phiphi(const unsigned int i, const unsigned int j)
  {
    return vol([&](unsigned k) { return t().phi[k][i] * t().phi[k][j]; });
  }
  static return_t integrate_vol_Dphiphi(const unsigned int i, const unsigned int j, const unsigned int d)
  {
    return vol([&](unsigned k) { return t().dphi[k][i][d] * t().phi[k][j]; });
  }
  static return_t integrate_bdr_phiphi(const unsigned int i, const unsigned int j, const unsigned int f)
  {
    return bdr([&](unsigned k) { return t().bphi[f][k][i] * t().bphi[f][k][j]; });
  }
  static return_t integrate_bdr_phipsi(const unsigned int i, const unsigned int j, const unsigned int f)
  {
    return bdr([&](unsigned k) { return t().bphi[f][k][i] * t().bpsi[k][j]; });
  }
  // Mapped element, no coefficient ----------------------------------------------------------------
  template <typename GeomT>
  static return_t integrate_vol_phiphi(const unsigned int i, const unsigned int j, const GeomT& geom)
  {
    return vol([&](unsigned k) { return t().phi[k][i] * t().phi[k][j]; }) * geom.area();
  }
  /// Combinations of shape functions.
  template <typename GeomT, std::size_t n, typename float_t>
  static return_t integrate_vol_phiphi(const std::array<float_t, n>& is,
                                       const std::array<float_t, n>& js,
                                       const GeomT& geom)
  {
    return vol([&](unsigned k) { return dot(is, t().phi[k], N) * dot(js, t().phi[k], N); }) * geom.area();
  }
  template <typename GeomT>
  static return_t integrate_bdr_phiphi(const unsigned int i,
                                       const unsigned int j,
                                       const unsigned int f,
                                       const GeomT& geom)
  {
    return bdr([&](unsigned k) { return t().bphi[f][k][i] * t().bphi[f][k][j]; }) * geom.face_area(f);
  }
  template <typename GeomT>
  static return_t integrate_bdr_phipsi(const unsigned int i,
                                       const unsigned int j,
                                       const unsigned int f,
                                       const GeomT& geom)
  {
    return bdr([&](unsigned k) { return t().bphi[f][k][i] * t().bpsi[k][j]; }) * geom.face_area(f);
  }
  template <typename GeomT>
  static return_t integrate_bdr_psipsi(const unsigned int i,
                                       const unsigned int j,
                                       const unsigned int f,
                                       const GeomT& geom)
  {
    return bdr([&](unsigned k) { return t().bpsi[k][i] * t().bpsi[k][j]; }) * geom.face_area(f);
  }
  template <typename VecT, typename GeomT>
  static VecT integrate_vol_nablaphiphi(const unsigned int i, const unsigned int j, const GeomT& geom)
  {
    std::array<double, D> s;
    for (unsigned int d = 0; d < D; ++d)
      s[d] = vol([&](unsigned k) { return t().dphi[k][i][d] * t().phi[k][j]; }) * (double)geom.area();
    s = rt_inv(geom.mat_r(), s);
    VecT res;
    for (unsigned int d = 0; d < D; ++d)
      res[d] = (return_t)s[d];
    return res;
  }
  /// Shape function i of degree deg_i, shape function j of degree deg_j.
  template <typename VecT, typename GeomT, unsigned int deg_i, unsigned int deg_j>
  static VecT integrate_vol_nablaphiphi(const unsigned int i, const unsigned int j, const GeomT& geom)
  {
    typedef ShapeFunction<ShapeType::Tensorial<ShapeType::Legendre<deg_i>, D> > fi;
    typedef ShapeFunction<ShapeType::Tensorial<ShapeType::Legendre<deg_j>, D> > fj;
    std::array<double, D> s;
    for (unsigned int d = 0; d < D; ++d)
      s[d] = vol([&](unsigned k) {
               return fi::template der_val<double>(i, t().x[k], d) * fj::template fct_val<double>(j, t().x[k]);
             }) *
             (double)geom.area();
    s = rt_inv(geom.mat_r(), s);
    VecT res;
    for (unsigned int d = 0; d < D; ++d)
      res[d] = (return_t)s[d];
    return res;
  }
  // Mapped element with coefficient functions -----------------------------------------------------
  template <typename PointT, typename GeomT, auto fun, typename PointRefT = SmallVec<D, return_t> >
  static return_t integrate_vol_phiphifunc(const unsigned int i,
                                           const unsigned int j,
                                           const GeomT& geom,
                                           const return_t time = 0.)
  {
    return vol([&](unsigned k) { return t().phi[k][i] * t().phi[k][j] * (double)fun(TPP_PT(t().x[k]), time); }) *
           geom.area();
  }
  /// Component number d of the vector valued function in the local basis (columns of Q).
  template <typename PointT, typename GeomT, auto fun, typename PointRefT = SmallVec<D, return_t> >
  static return_t integrate_vol_phiphivecfunc(const unsigned int i,
                                              const unsigned int j,
                                              const unsigned int d,
                                              const GeomT& geom,
                                              const return_t time = 0.)
  {
    const auto dir = direction<PointT>((int)d + 1, geom);
    return vol([&](unsigned k) {
             return t().phi[k][i] * t().phi[k][j] * dot(fun(TPP_PT(t().x[k]), time), dir, GeomT::space_dim());
           }) *
           geom.area();
  }
  template <typename PointT, typename GeomT, auto fun, typename PointRefT = SmallVec<D, return_t> >
  static return_t integrate_vol_nablaphiphivecfunc(const unsigned int i,
                                                   const unsigned int j,
                                                   const GeomT& geom,
                                                   const return_t time = 0.)
  {
    const auto r = geom.mat_r();
    const auto q = geom.mat_q();
    return vol([&](unsigned k) {
             const auto g = rt_inv(r, t().dphi[k][i]);
             const auto b = fun(TPP_PT(t().x[k]), time);
             double s = 0.;
             for (unsigned int d = 0; d < D; ++d)
               for (unsigned int e = 0; e < GeomT::space_dim(); ++e)
                 s += g[d] * (double)q(e, d) * (double)b[e];
             return s * t().phi[k][j];
           }) *
           geom.area();
  }
  template <typename PointT, typename GeomT, auto fun, typename PointRefT = SmallVec<D, return_t> >
  static return_t integrate_vol_nablaphinablaphifunc(const unsigned int i,
                                                     const unsigned int j,
                                                     const GeomT& geom,
                                                     const return_t time = 0.)
  {
    const auto r = geom.mat_r();
    return vol([&](unsigned k) {
             return dot(rt_inv(r, t().dphi[k][i]), rt_inv(r, t().dphi[k][j]), D) *
                    (double)fun(TPP_PT(t().x[k]), time);
           }) *
           geom.area();
  }
  template <typename PointT, typename GeomT, auto fun, typename PointRefT = SmallVec<D, return_t> >
  static return_t integrate_vol_derphifunc(const unsigned int i,
                                           const unsigned int d,
                                           const GeomT& geom,
                                           const return_t time = 0.)
  {
    const auto r = geom.mat_r();
    return vol([&](unsigned k) { return rt_inv(r, t().dphi[k][i])[d] * (double)fun(TPP_PT(t().x[k]), time); }) *
           geom.area();
  }
  template <typename PointT, typename GeomT, auto fun, typename PointRefT = SmallVec<D, return_t> >
  static return_t integrate_bdr_nablaphiphinufunc(const unsigned int i,
                                                  const unsigned int j,
                                                  const unsigned int f,
                                                  const GeomT& geom,
                                                  const return_t time = 0.)
  {
    const auto r = geom.mat_r();
    const auto n = geom.local_normal(f);
    return bdr([&](unsigned k) {
             return dot(rt_inv(r, t().bdphi[f][k][i]), n, D) * t().bphi[f][k][j] *
                    (double)fun(TPP_PT(t().bx[f][k]), time);
           }) *
           geom.face_area(f);
  }
  template <typename PointT, typename GeomT, auto fun, typename PointRefT = SmallVec<D, return_t> >
  static return_t integrate_bdr_nablaphipsinufunc(const unsigned int i,
                                                  const unsigned int j,
                                                  const unsigned int f,
                                                  const GeomT& geom,
                                                  const return_t time = 0.)
  {
    const auto r = geom.mat_r();
    const auto n = geom.local_normal(f);
    return bdr([&](unsigned k) {
             return dot(rt_inv(r, t().bdphi[f][k][i]), n, D) * t().bpsi[k][j] *
                    (double)fun(TPP_PT(t().bx[f][k]), time);
           }) *
           geom.face_area(f);
  }
  template <typename PointT, typename GeomT, auto fun, typename PointRefT = SmallVec<D, return_t> >
  static return_t integrate_volUni_phifunc(const unsigned int i, const GeomT& geom, const return_t time = 0.)
  {
    return vol([&](unsigned k) { return t().phi[k][i] * (double)fun(TPP_PT(t().x[k]), time); });
  }
  template <typename PointT, typename GeomT, auto fun, typename PointRefT = SmallVec<D, return_t> >
  static return_t integrate_vol_phifunc(const unsigned int i, const GeomT& geom, const return_t time = 0.)
  {
    return vol([&](unsigned k) { return t().phi[k][i] * (double)fun(TPP_PT(t().x[k]), time); }) * geom.area();
  }
  template <typename PointT, typename GeomT, auto fun, typename PointRefT = SmallVec<D, return_t> >
  static return_t integrate_bdr_phifunc(const unsigned int i,
                                        const unsigned int f,
                                        const GeomT& geom,
                                        const return_t time = 0.)
  {
    return bdr([&](unsigned k) { return t().bphi[f][k][i] * (double)fun(TPP_PT(t().bx[f][k]), time); }) *
           geom.face_area(f);
  }
  template <typename PointT, typename GeomT, auto fun, typename PointRefT = SmallVec<D, return_t> >
  static return_t integrate_bdr_psifunc(const unsigned int i,
                                        const unsigned int f,
                                        const GeomT& geom,
                                        const return_t time = 0.)
  {
    return bdr([&](unsigned k) { return t().bpsi[k][i] * (double)fun(TPP_PT(t().bx[f][k]), time); }) *
           geom.face_area(f);
  }
  template <typename PointT, typename GeomT, auto fun, typename PointRefT = SmallVec<D, return_t> >
  static return_t integrate_bdrUni_psifunc(const unsigned int i,
                                           const unsigned int f,
                                           const GeomT& geom,
                                           const return_t time = 0.)
  {
    return bdr([&](unsigned k) { return t().bpsi[k][i] * (double)fun(TPP_PT(t().bx[f][k]), time); });
  }
  template <typename GeomT, auto fun>
  static return_t integrate_bdrUni_psifunc(const unsigned int i,
                                           const unsigned int f,
                                           const GeomT& geom,
                                           const return_t time = 0.)
  {
    return integrate_bdrUni_psifunc<SmallVec<GeomT::space_dim(), return_t>, GeomT, fun>(i, f, geom, time);
  }
  template <typename PointT,
            typename GeomT,
            auto fun,
            typename PointRefT = SmallVec<D, return_t>,
            std::size_t n_coeff>
  static return_t integrate_vol_diffsquare_discana(const std::array<return_t, n_coeff>& coeffs,
                                                   const GeomT& geom,
                                                   const return_t time = 0.)
  {
    static_assert(n_coeff == N, "one coefficient per shape function");
    return vol([&](unsigned k) {
             const double d = (double)fun(TPP_PT(t().x[k]), time) - dot(coeffs, t().phi[k], N);
             return d * d;
           }) *
           geom.area();
  }
  template <typename GeomT, auto fun, std::size_t n_coeff>
  static return_t integrate_vol_diffsquare_discana(const std::array<return_t, n_coeff>& coeffs,
                                                   const GeomT& geom,
                                                   const return_t time = 0.)
  {
    return integrate_vol_diffsquare_discana<SmallVec<GeomT::space_dim(), return_t>, GeomT, fun>(coeffs, geom, time);
  }
  // Component of a vector field: 1, 2, ... column of Q; -1, -2, ... outer normal ---------------------
  template <typename PointT,
            typename GeomT,
            auto fun,
            typename PointRefT = SmallVec<D, return_t>,
            std::size_t n_coeff>
  static return_t integrate_vol_diffsquare_discanacomp(const std::array<return_t, n_coeff>& coeffs,
                                                       const int comp,
                                                       const GeomT& geom,
                                                       const return_t time = 0.)
  {
    const auto dir = direction<PointT>(comp, geom);
    return vol([&](unsigned k) {
             const double d = (double)fun(TPP_PT(t().x[k]), dir, time) - dot(coeffs, t().phi[k], N);
             return d * d;
           }) *
           geom.area();
  }
  template <typename PointT, typename GeomT, auto fun, typename PointRefT = SmallVec<D, return_t> >
  static return_t integrate_vol_phivecfunccomp(const unsigned int i,
                                               const int comp,
                                               const GeomT& geom,
                                               const return_t time = 0.)
  {
    const auto dir = direction<PointT>(comp, geom);
    return vol([&](unsigned k) { return t().phi[k][i] * (double)fun(TPP_PT(t().x[k]), dir, time); }) * geom.area();
  }
  template <typename PointT, typename GeomT, auto fun, typename PointRefT = SmallVec<D, return_t> >
  static return_t integrate_bdr_phivecfunccomp(const unsigned int i,
                                               const unsigned int f,
                                               const int comp,
                                               const GeomT& geom,
                                               const return_t time = 0.)
  {
    const auto dir = direction<PointT>(comp, geom);
    return bdr([&](unsigned k) { return t().bphi[f][k][i] * (double)fun(TPP_PT(t().bx[f][k]), dir, time); }) *
           geom.face_area(f);
  }
  // Upwind integrals: b.nu restricted to out- or inflow ------------------------------------------
 private:
  template <typename PointT, typename GeomT, auto fun, typename PointRefT, typename F>
  static return_t wind(const unsigned int f, const GeomT& geom, const return_t time, const F& integrand)
  {
    const auto n = geom.inner_normal(f);
    return bdr([&](unsigned k) {
             return integrand(k, dot(fun(TPP_PT(t().bx[f][k]), time), n, GeomT::space_dim()));
           }) *
           geom.face_area(f);
  }
#define TPP_WIND(NAME, EXPR)                                                                             \
  template <typename PointT, typename GeomT, auto fun, typename PointRefT = SmallVec<D, return_t> >      \
  static return_t NAME(const unsigned int i, const unsigned int j, const unsigned int f,                 \
                       const GeomT& geom, const return_t time = 0.)                                      \
  {                                                                                                      \
    return wind<PointT, GeomT, fun, PointRefT>(f, geom, time, [&](unsigned k, double bn) -> double { return EXPR; }); \
  }

 public:
  TPP_WIND(integrate_bdr_phiphinuvecfunc_cutwind, t().bphi[f][k][i] * t().bphi[f][k][j] * (bn > 0. ? bn : 0.))
  TPP_WIND(integrate_bdr_psiphinuvecfunc_cutwind, t().bpsi[k][i] * t().bphi[f][k][j] * (bn > 0. ? bn : 0.))
  TPP_WIND(integrate_bdr_phipsinuvecfunc_cutwind, t().bphi[f][k][i] * t().bpsi[k][j] * (bn > 0. ? 0. : bn))
  TPP_WIND(integrate_bdr_psipsinuvecfunc_cutwind, t().bpsi[k][i] * t().bpsi[k][j] * (bn > 0. ? 0. : bn))
  TPP_WIND(integrate_bdr_phiphi_cutwind, t().bphi[f][k][i] * t().bphi[f][k][j] * (bn > 0.))
  TPP_WIND(integrate_bdr_psiphi_cutwind, t().bpsi[k][i] * t().bphi[f][k][j] * (bn > 0.))
  TPP_WIND(integrate_bdr_phipsi_cutdownwind, t().bphi[f][k][i] * t().bpsi[k][j] * (bn > 0.))
  TPP_WIND(integrate_bdr_psipsi_cutdownwind, t().bpsi[k][i] * t().bpsi[k][j] * (bn > 0.))
  template <typename PointT, typename GeomT, auto val, auto fun, typename PointRefT = SmallVec<D, return_t> >
  static return_t integrate_bdr_phifuncnuvecfunc_cutwind(const unsigned int i,
                                                         const unsigned int f,
                                                         const GeomT& geom,
                                                         const return_t time = 0.)
  {
    return wind<PointT, GeomT, fun, PointRefT>(f, geom, time, [&](unsigned k, double bn) -> double {
      return t().bphi[f][k][i] * (double)val(TPP_PT(t().bx[f][k]), time) * (bn > 0. ? 0. : bn);
    });
  }
#undef TPP_WIND
#undef TPP_PT
};
}  // namespace Quadrature
}  // namespace TPP
