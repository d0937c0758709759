// Shared by the local-solver harnesses: own geometry, own polynomials, own quadrature.
#pragma once
#include "pbt.hxx"
#include <HyperHDG/compile_time_tricks.hxx>
#include <HyperHDG/dense_la.hxx>
#include <HyperHDG/hypercube.hxx>
namespace loc
{
typedef std::vector<double> Vec;

// ---- quadrature on [0,1]: 6 Gauss points, exact up to degree 11 ---------------------------------
constexpr unsigned NQ = 6;
struct Rule
{
  double x[NQ], w[NQ];
  Rule()
  {
    // eigenvalue-free: bisection on the Legendre polynomial between sign changes
    auto P = [](long double t) {
      long double a = 1, b = t;
      for (unsigned m = 1; m < NQ; ++m)
      {
        const long double c = ((2 * m + 1) * t * b - m * a) / (m + 1);
        a = b;
        b = c;
      }
      return b;
    };
    unsigned n = 0;
    const int M = 4001;
    for (int i = 0; i < M && n < NQ; ++i)
    {
      long double lo = -1 + 2.0L * i / M, hi = -1 + 2.0L * (i + 1) / M;
      if (P(lo) * P(hi) > 0)
        continue;
      for (int k = 0; k < 80; ++k)
      {
        const long double mid = (lo + hi) / 2;
        (P(lo) * P(mid) <= 0 ? hi : lo) = mid;
      }
      x[n++] = (double)((1 + (lo + hi) / 2) / 2);
    }
    // weights: integrate the Lagrange polynomials exactly through the monomial moments
    for (unsigned k = 0; k < NQ; ++k)
    {
      long double c[NQ + 1] = {1};
      unsigned deg = 0;
      long double den = 1;
      for (unsigned j = 0; j < NQ; ++j)
        if (j != k)
        {
          long double n2[NQ + 1] = {0};
          for (unsigned m = 0; m <= deg; ++m)
          {
            n2[m + 1] += c[m];
            n2[m] -= c[m] * x[j];
          }
          ++deg;
          for (unsigned m = 0; m <= deg; ++m)
            c[m] = n2[m];
          den *= (long double)x[k] - x[j];
        }
      long double s = 0;
      for (unsigned m = 0; m <= deg; ++m)
        s += c[m] / (m + 1);
      w[k] = (double)(s / den);
    }
  }
};
inline const Rule& rule()
{
  static const Rule r;
  return r;
}
inline unsigned ipow(unsigned b, unsigned e) { return e ? b * ipow(b, e - 1) : 1; }

// ---- orthonormal Legendre polynomials on [0,1], explicit monomial form --------------------------
inline double leg(unsigned n, double x, bool der = false)
{
  long double s = 0;
  auto binom = [](unsigned a, unsigned b) {
    long double r = 1;
    for (unsigned i = 0; i < b; ++i)
      r = r * (a - i) / (i + 1);
    return r;
  };
  for (unsigned k = der ? 1 : 0; k <= n; ++k)
    s += binom(n, k) * binom(n + k, k) * ((n + k) % 2 ? -1 : 1) * (der ? k * std::pow((long double)x, k - 1) : std::pow((long double)x, k));
  return (double)(s * std::sqrt((long double)(2 * n + 1)));
}
/// Tensor product function number i with n1 functions per direction, first direction fastest.
inline double shape(unsigned i, unsigned n1, const Vec& x, int der = -1)
{
  double r = 1;
  for (unsigned d = 0; d < x.size(); ++d, i /= n1)
    r *= leg(i % n1, x[d], (int)d == der);
  return r;
}

// ---- geometry ---------------------------------------------------------------------------------------
/// Affine hyperedge x = a + Q R xi with Q orthogonal (determinant one) and R upper triangular.
template <unsigned d, unsigned D, typename F = double>
struct Geom
{
  SmallVec<D, F> a;
  SmallSquareMat<D, F> Q;
  SmallSquareMat<d, F> R;
  SmallVec<d, F> ln[2 * d];
  F farea[2 * d];
  static constexpr unsigned int hyEdge_dim() { return d; }
  static constexpr unsigned int space_dim() { return D; }
  template <unsigned int n_vec>
  SmallMat<D, n_vec, F> map_ref_to_phys(const SmallMat<d, n_vec, F>& pts) const
  {
    SmallMat<D, n_vec, F> r;
    for (unsigned k = 0; k < n_vec; ++k)
      for (unsigned i = 0; i < D; ++i)
      {
        F s = a[i];
        for (unsigned j = 0; j < d; ++j)
          for (unsigned l = j; l < d; ++l)
            s += Q(i, j) * R(j, l) * pts(l, k);
        r(i, k) = s;
      }
    return r;
  }
  template <unsigned int n_vec>
  SmallMat<D, n_vec, F>& map_ref_to_phys(SmallMat<D, n_vec, F>& pts) const
    requires(d == D)
  {
    const SmallMat<D, n_vec, F> copy(pts);
    return pts = map_ref_to_phys(static_cast<const SmallMat<d, n_vec, F>&>(copy));
  }
  const SmallSquareMat<d, F>& mat_r() const { return R; }
  const SmallSquareMat<D, F> mat_q() const { return Q; }
  F area() const
  {
    F r = 1;
    for (unsigned i = 0; i < d; ++i)
      r *= R(i, i);
    return std::abs(r);
  }
  F face_area(const unsigned int f) const { return farea[f]; }
  Point<d, F> local_normal(const unsigned int f) const { return ln[f]; }
  Point<D, F> inner_normal(const unsigned int f) const
  {
    Point<D, F> r;
    for (unsigned i = 0; i < D; ++i)
      for (unsigned j = 0; j < d; ++j)
        r[i] += Q(i, j) * ln[f][j];
    return r;
  }
  Point<D, F> outer_normal(const unsigned int k) const
  {
    Point<D, F> r;
    for (unsigned i = 0; i < D; ++i)
      r[i] = Q(i, d + k);
    return r;
  }
  Point<D, F> span_vec(const unsigned int k) const
  {
    Point<D, F> r;
    for (unsigned i = 0; i < D; ++i)
      for (unsigned j = 0; j < d; ++j)
        r[i] += Q(i, j) * R(j, k);
    return r;
  }
  Point<D, F> face_barycenter(const unsigned int f) const
  {
    SmallVec<d, F> c;
    for (unsigned i = 0; i < d; ++i)
      c[i] = i == f / 2 ? (F)(f % 2) : (F)0.5;
    const SmallVec<d, F>& cc = c;
    return map_ref_to_phys(cc);
  }
  // own helpers
  Vec phys(const Vec& xi) const
  {
    Vec r(D);
    for (unsigned i = 0; i < D; ++i)
    {
      r[i] = (double)a[i];
      for (unsigned j = 0; j < d; ++j)
        for (unsigned l = j; l < d; ++l)
          r[i] += (double)Q(i, j) * (double)R(j, l) * xi[l];
    }
    return r;
  }
  Vec ref(const Vec& x) const
  {
    Vec y(d, 0.);
    for (unsigned j = 0; j < d; ++j)
      for (unsigned i = 0; i < D; ++i)
        y[j] += (double)Q(i, j) * (x[i] - (double)a[i]);
    for (unsigned j = d; j-- > 0;)
    {
      for (unsigned l = j + 1; l < d; ++l)
        y[j] -= (double)R(j, l) * y[l];
      y[j] /= (double)R(j, j);
    }
    return y;
  }
  /// R^{-T} v
  Vec grad(const Vec& v) const
  {
    Vec y(d);
    for (unsigned i = 0; i < d; ++i)
    {
      y[i] = v[i];
      for (unsigned k = 0; k < i; ++k)
        y[i] -= (double)R(k, i) * y[k];
      y[i] /= (double)R(i, i);
    }
    return y;
  }
};
template <unsigned d, unsigned D, typename F>
void finish_geom(Geom<d, D, F>& m)
{
  // face f: normal is +-row f/2 of R^{-1}, normalised; its area is area * |row|
  for (unsigned f = 0; f < 2 * d; ++f)
  {
    Vec e(d, 0.);
    e[f / 2] = f % 2 ? 1. : -1.;
    const Vec n = m.grad(e);  // R^{-T} e
    double len = 0;
    for (double v : n)
      len += v * v;
    len = std::sqrt(len);
    // make sure that it really points outwards: n . (R e_{f/2}) has the sign of the face
    for (unsigned i = 0; i < d; ++i)
      m.ln[f][i] = (F)(n[i] / len);
    m.farea[f] = (F)((double)m.area() * len);
    if (d == 1)
      m.farea[f] = 1;
  }
}
template <unsigned d, unsigned D, typename F = double>
Geom<d, D, F> gen_geom(pbt::Gen& g)
{
  Geom<d, D, F> m;
  for (unsigned i = 0; i < D; ++i)
    m.a[i] = (F)(g.signed_small(8) / 8.);
  // product of rotations, or a signed permutation with determinant one
  double q[D][D] = {};
  for (unsigned i = 0; i < D; ++i)
    q[i][i] = 1;
  const bool axis = g.chance(1, 4);
  for (unsigned i = 0; i < D; ++i)
    for (unsigned j = i + 1; j < D; ++j)
    {
      const double al = axis ? (double)g.index(4) * std::acos(0.) : (double)g.raw(63) / 10.;
      const double c = axis ? std::round(std::cos(al)) : std::cos(al), s = axis ? std::round(std::sin(al)) : std::sin(al);
      for (unsigned k = 0; k < D; ++k)
      {
        const double u = q[k][i], v = q[k][j];
        q[k][i] = c * u - s * v;
        q[k][j] = s * u + c * v;
      }
    }
  for (unsigned i = 0; i < D; ++i)
    for (unsigned j = 0; j < D; ++j)
      m.Q(i, j) = (F)q[i][j];
  for (unsigned i = 0; i < d; ++i)
    for (unsigned j = i; j < d; ++j)
      if (i == j)
        m.R(i, j) = (F)(g.chance(1, 3) ? 1. : g.positive(0.4, 2.5));
      else
        m.R(i, j) = (F)(g.chance(1, 2) ? 0. : g.signed_small(10) / 16.);
  const double size = g.chance(1, 8) ? std::pow(2., -2. * (1 + (double)g.index(5))) : 1.;  // small hyperedges
  for (unsigned i = 0; i < d; ++i)
    for (unsigned j = i; j < d; ++j)
      m.R(i, j) *= (F)size;
  if (g.chance(1, 6))  // a frame whose first axis is reversed
    for (unsigned j = 0; j < d; ++j)
      m.R(0, j) *= -1;
  finish_geom(m);
  return m;
}

template <unsigned d>
Geom<d, d> unit_geom()
{
  Geom<d, d> geo;
  geo.R = 0.;
  for (unsigned i = 0; i < d; ++i)
  {
    geo.R(i, i) = 1.;
    for (unsigned f = 0; f < 2 * d; ++f)
    {
      geo.ln[f][i] = i == f / 2 ? (f % 2 ? 1. : -1.) : 0.;
      geo.farea[f] = 1;
    }
    for (unsigned j = 0; j < d; ++j)
      geo.Q(i, j) = i == j;
    geo.a[i] = 0;
  }
  return geo;
}

/// One, or now and then a power of two between 2^-e and 2^e.
inline double gen_factor(pbt::Gen& g, unsigned one_in, unsigned e) { return g.chance(1, one_in) ? std::pow(2., (double)g.index(2 * e + 1) - e) : 1.; }
inline double gen_time(pbt::Gen& g) { return g.chance(1, 5) ? 0. : (g.chance(1, 8) ? -1. : 1.) * (double)g.raw(8) / 4.; }
inline double gen_tau(pbt::Gen& g) { return g.chance(1, 4) ? 1. : g.positive(0.2, 6.) * gen_factor(g, 6, 6); }
inline double gen_step(pbt::Gen& g) { return g.positive(0.05, 1.) * gen_factor(g, 5, 6); }
// ---- data of the problem ------------------------------------------------------------------------------
/// A polynomial of degree two in x and one in t, or something else.
struct Fun
{
  std::vector<double> c;   // 1, x_i, x_i x_j (i <= j)
  std::vector<double> ct;  // the same times t
  std::function<double(const Vec&, double)> other;
  double operator()(const Vec& x, double t) const
  {
    if (other)
      return other(x, t);
    if (c.empty())
      return 0.;
    double r = 0;
    unsigned k = 0;
    auto at = [&](unsigned i) { return (i < c.size() ? c[i] : 0.) + t * (i < ct.size() ? ct[i] : 0.); };
    r += at(k++);
    for (unsigned i = 0; i < x.size(); ++i)
      r += at(k++) * x[i];
    for (unsigned i = 0; i < x.size(); ++i)
      for (unsigned j = i; j < x.size(); ++j)
        r += at(k++) * x[i] * x[j];
    return r;
  }
};
inline Fun gen_fun(pbt::Gen& g, unsigned D, unsigned deg = 2)
{
  Fun f;
  if (g.chance(1, 10))
    return f;
  const unsigned n = deg == 0 ? 1 : deg == 1 ? 1 + D : 1 + D + D * (D + 1) / 2;
  for (unsigned i = 0; i < n; ++i)
    f.c.push_back(g.signed_small(12) / 4.);
  if (g.chance(3, 4))
    for (unsigned i = 0; i < n; ++i)
      f.ct.push_back(g.signed_small(12) / 4.);
  return f;
}
/// Positive on the whole domain the generated geometries can occupy (|x| < 12) for times from -2 on.
inline Fun gen_pos(pbt::Gen& g, unsigned D)
{
  Fun f;
  f.c.push_back(g.positive(0.5, 3.) * gen_factor(g, 8, 6));
  for (unsigned i = 0; i < D; ++i)
    f.c.push_back(f.c[0] * g.signed_small(10) / (400. * D));
  if (g.chance(3, 4))
    f.ct.push_back(f.c[0] * g.positive(0., 0.4));
  if (g.chance(1, 6))
    f.c.resize(1);
  return f;
}
/// The functions the parameters struct hands to the solver under test.
enum
{
  KINV,
  KAPPA,
  RHS,
  DIR,
  NEU,
  ANA,
  INI,
  RATE,
  VEL0,
  VEL1,
  VEL2,
  DIRL,
  INIL,
  N_FUN
};
inline Fun& fun(unsigned k)
{
  static Fun f[N_FUN];
  return f[k];
}
template <typename PointT>
double call(unsigned k, const PointT& p, double t)
{
  Vec x;
  for (unsigned i = 0; i < p.size(); ++i)
    x.push_back((double)p[i]);
  return fun(k)(x, t);
}
#define LOC_FUN(NAME, K) \
  static F NAME(const Point<D, F>& p, const F t = 0.) { return (F)loc::call(loc::K, p, (double)t); }
#define LOC_ALL_FUNS                                                     \
  LOC_FUN(inverse_diffusion_coeff, KINV)                                 \
  LOC_FUN(inverse_bilaplacian_coefficient, KINV)                         \
  LOC_FUN(diffusion_coeff, KAPPA)                                        \
  LOC_FUN(right_hand_side, RHS)                                          \
  LOC_FUN(dirichlet_value, DIR)                                          \
  LOC_FUN(dirichlet_laplace_value, DIRL)                                 \
  LOC_FUN(neumann_value, NEU)                                            \
  LOC_FUN(neumann_laplace_value, NEU)                                    \
  LOC_FUN(analytic_result, ANA)                                          \
  LOC_FUN(initial, INI)                                                  \
  LOC_FUN(initial_laplace, INIL)                                         \
  LOC_FUN(reaction_rate, RATE)                                           \
  static SmallVec<D, F> vel(const Point<D, F>& p, const F t)             \
  {                                                                      \
    SmallVec<D, F> r;                                                    \
    for (unsigned i = 0; i < D; ++i)                                     \
      r[i] = (F)loc::call(loc::VEL0 + i, p, (double)t);                  \
    return r;                                                            \
  }                                                                      \
  static SmallVec<D, F> advective_velocity(const Point<D, F>& p, const F t = 0.) { return vel(p, t); } \
  static SmallVec<D, F> velocity(const Point<D, F>& p, const F t = 0.) { return vel(p, t); }

// ---- polynomials on the hyperedge ---------------------------------------------------------------------
/// Coefficients of the polynomial whose values at the n1-point tensor Gauss abscissas are given.
struct Poly
{
  unsigned d, n1;
  Vec c;
  double val(const Vec& xi) const
  {
    double s = 0;
    for (unsigned i = 0; i < c.size(); ++i)
      s += c[i] * shape(i, n1, xi);
    return s;
  }
  double der(const Vec& xi, unsigned k) const
  {
    double s = 0;
    for (unsigned i = 0; i < c.size(); ++i)
      s += c[i] * shape(i, n1, xi, (int)k);
    return s;
  }
};
/// n-point abscissas at which a polynomial of degree n-1 is sampled.
template <unsigned n>
std::array<double, n> abscissas()
{
  std::array<double, n> a;
  for (unsigned i = 0; i < n; ++i)
    a[i] = n == 1 ? 0.5 : std::round(64. * (0.5 - 0.5 * std::cos(M_PI * (i + 0.5) / n))) / 64.;  // also exact in float
  return a;
}
template <unsigned d, unsigned n, typename A>
Poly interpolate(const std::array<double, n>& ab, const A& vals)
{
  // one-dimensional: coefficient matrix = inverse of V(k,i) = leg(i, x_k)
  double V[n][2 * n];
  for (unsigned k = 0; k < n; ++k)
    for (unsigned i = 0; i < n; ++i)
    {
      V[k][i] = leg(i, ab[k]);
      V[k][n + i] = k == i;
    }
  for (unsigned i = 0; i < n; ++i)
  {
    unsigned p = i;
    for (unsigned k = i; k < n; ++k)
      if (std::abs(V[k][i]) > std::abs(V[p][i]))
        p = k;
    for (unsigned j = 0; j < 2 * n; ++j)
      std::swap(V[i][j], V[p][j]);
    const double pv = V[i][i];
    for (unsigned j = 0; j < 2 * n; ++j)
      V[i][j] /= pv;
    for (unsigned k = 0; k < n; ++k)
      if (k != i)
      {
        const double fct = V[k][i];
        for (unsigned j = 0; j < 2 * n; ++j)
          V[k][j] -= fct * V[i][j];
      }
  }
  Poly r{d, n, Vec(vals.begin(), vals.end())};
  for (unsigned dim = 0, st = 1; dim < d; ++dim, st *= n)
  {
    Vec o(r.c.size(), 0.);
    for (unsigned i = 0; i < r.c.size(); ++i)
      for (unsigned k = 0; k < n; ++k)
      {
        const unsigned me = i / st % n;
        o[i] += V[me][n + k] * r.c[i + k * st - me * st];
      }
    r.c = o;
  }
  return r;
}
/// Quadrature points of the hyperedge and of its faces (reference coordinates, reference weights).
struct QP
{
  Vec xi, sub;  // sub: coordinates on the face
  double w;
};
inline std::vector<QP> vol_points(unsigned d, unsigned n = NQ)
{
  std::vector<QP> r;
  for (unsigned k = 0; k < ipow(n, d); ++k)
  {
    QP q{Vec(d), {}, 1.};
    for (unsigned i = 0, m = k; i < d; ++i, m /= n)
      q.xi[i] = rule().x[m % n], q.w *= rule().w[m % n];
    r.push_back(q);
  }
  return r;
}
inline std::vector<QP> face_points(unsigned d, unsigned f)
{
  std::vector<QP> r;
  for (unsigned k = 0; k < ipow(NQ, d - 1); ++k)
  {
    QP q{Vec(d), Vec(d - 1), 1.};
    for (unsigned i = 0, m = k; i + 1 < d; ++i, m /= NQ)
      q.sub[i] = rule().x[m % NQ], q.w *= rule().w[m % NQ];
    for (unsigned i = 0, s = 0; i < d; ++i)
      q.xi[i] = i == f / 2 ? (double)(f % 2) : q.sub[s++];
    r.push_back(q);
  }
  return r;
}
/// Everything evaluated once: basis, gradients, weights including the volume factors.
template <unsigned d, unsigned D, unsigned n1>
struct Tab
{
  struct Pt
  {
    Vec xi, x, phi, psi;
    std::vector<Vec> dphi;  // gradients in local coordinates
    double w;
  };
  std::vector<Pt> vol;
  std::vector<Pt> face[2 * d];
  static constexpr unsigned N = Hypercube<d>::pow(n1), NB = Hypercube<d - 1>::pow(n1);
  Vec nrm[2 * d];
  template <typename G>
  explicit Tab(const G& geo)
  {
    struct Ref
    {
      std::vector<std::pair<QP, std::pair<Vec, std::vector<Vec> > > > vol, face[2 * d];
      static std::pair<QP, std::pair<Vec, std::vector<Vec> > > at(const QP& q)
      {
        Vec phi;
        std::vector<Vec> der;
        for (unsigned i = 0; i < N; ++i)
        {
          phi.push_back(shape(i, n1, q.xi));
          Vec gr(d);
          for (unsigned k = 0; k < d; ++k)
            gr[k] = shape(i, n1, q.xi, (int)k);
          der.push_back(gr);
        }
        return {q, {phi, der}};
      }
      Ref()
      {
        for (const QP& q : vol_points(d))
          vol.push_back(at(q));
        for (unsigned f = 0; f < 2 * d; ++f)
          for (const QP& q : face_points(d, f))
            face[f].push_back(at(q));
      }
    };
    static const Ref ref;
    auto fill = [&](const auto& r, double fac) {
      Pt p{r.first.xi, geo.phys(r.first.xi), r.second.first, {}, {}, r.first.w * fac};
      for (const Vec& gr : r.second.second)
        p.dphi.push_back(geo.grad(gr));
      return p;
    };
    for (const auto& r : ref.vol)
      vol.push_back(fill(r, (double)geo.area()));
    for (unsigned f = 0; f < 2 * d; ++f)
    {
      for (const auto& r : ref.face[f])
      {
        face[f].push_back(fill(r, (double)geo.face_area(f)));
        for (unsigned j = 0; j < NB; ++j)
          face[f].back().psi.push_back(shape(j, n1, r.first.sub));
      }
      for (unsigned k = 0; k < d; ++k)
        nrm[f].push_back((double)geo.local_normal(f)[k]);
    }
  }
};
inline double lin(const Vec& c, const Vec& b)
{
  double s = 0;
  for (unsigned i = 0; i < b.size(); ++i)
    s += c[i] * b[i];
  return s;
}
/// Sum with the sum of the moduli of its terms.
struct Acc
{
  double s = 0, m = 0;
  void add(double v)
  {
    s += v;
    m += std::abs(v);
  }
};
template <unsigned n, unsigned NB>
std::array<std::array<double, NB>, n> gen_lambda(pbt::Gen& g)
{
  std::array<std::array<double, NB>, n> l;
  for (auto& r : l)
    for (double& v : r)
      v = g.signed_small(32) / 8.;
  return l;
}
/// Total errors are the root of the sum of the squared contributions.
template <typename S>
void error_definition(pbt::Gen& g)
{
  typedef typename S::error_def E;
  auto sum = E::initial_error();
  double want = 0;
  const unsigned n = (unsigned)g.raw(5);
  for (unsigned i = 0; i < n; ++i)
  {
    typename E::error_t c;
    c.fill(0.);
    c[0] = (double)g.raw(64) / 16.;
    want += c[0];
    sum = E::sum_error(sum, c);
  }
  auto total = E::postprocess_error(sum);
  CHECK_CLOSE((double)total[0], std::sqrt(want), 1e-6, 1 + std::sqrt(want), "total error of " << n << " hyperedges");
}
}  // namespace loc
