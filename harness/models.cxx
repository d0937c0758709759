// P31: the model problems that come with the library (reproducibles_python/parameters) are solved by the
// solutions they state, and the discretisations converge to those. MODEL selects header and solver.
#include "pbt.hxx"
#include <HyperHDG/dense_la.hxx>
#include <HyperHDG/geometry/unit_cube.hxx>
#include <HyperHDG/global_loop/elliptic.hxx>
#include <HyperHDG/global_loop/parabolic.hxx>
#include <HyperHDG/node_descriptor/cubic.hxx>
#include <HyperHDG/topology/cubic.hxx>
#include <algorithm>
#include <cmath>
#include <functional>
#include <vector>
#if MODEL == 1
#include <HyperHDG/local_solver/diffusion_ldgh.hxx>
#include <reproducibles_python/parameters/diffusion.hxx>
#elif MODEL == 2
#include <HyperHDG/local_solver/diffusion_ldgh_pp.hxx>
#include <reproducibles_python/parameters/diffusion.hxx>
#elif MODEL == 3
#include <HyperHDG/local_solver/diffusion_advection_reaction_ldg.hxx>
#include <reproducibles_python/parameters/diffusion_advection_reaction.hxx>
#elif MODEL == 4
#include <HyperHDG/local_solver/diffusion_ip.hxx>
#include <reproducibles_python/parameters/diffusion.hxx>
#elif MODEL == 5
#include <HyperHDG/local_solver/bilaplacian_ldgh.hxx>
#include <reproducibles_python/parameters/bilaplacian.hxx>
#elif MODEL == 6
#include <HyperHDG/local_solver/diffusion_parab_ldgh.hxx>
#include <reproducibles_python/parameters/diffusion.hxx>
#elif MODEL == 7
#include <HyperHDG/local_solver/bilaplacian_parab_ldgh.hxx>
#include <reproducibles_python/parameters/bilaplacian.hxx>
#elif MODEL == 8
#include <HyperHDG/local_solver/advection_parab_ldgh.hxx>
#include <reproducibles_python/parameters/advection.hxx>
#endif
namespace
{
typedef std::vector<double> Vec;
typedef std::vector<Vec> Mat;
const double pi = std::acos(-1.);
// ---- consistency: numerical derivatives of the functions that a model problem consists of -----------------
template <unsigned D>
using Pt = Point<D, double>;
template <unsigned D>
using Fun = std::function<double(const Pt<D>&, double)>;
constexpr double step = 1e-3;
template <unsigned D>
double along(const Fun<D>& f, const Pt<D>& x, double t, const Vec& e)
{
  auto at = [&](double s) {
    Pt<D> y = x;
    for (unsigned i = 0; i < D; ++i)
      y[i] += s * step * e[i];
    return f(y, t);
  };
  return (8. * (at(1) - at(-1)) - (at(2) - at(-2))) / (12 * step);
}
template <unsigned D>
double in_time(const Fun<D>& f, const Pt<D>& x, double t)
{
  auto at = [&](double s) { return f(x, t + s * step); };
  return (8. * (at(1) - at(-1)) - (at(2) - at(-2))) / (12 * step);
}
/// div_E (k grad_E u) for the tangential space that the rows of E span
template <unsigned D>
double second(const Fun<D>& k, const Fun<D>& u, const Pt<D>& x, double t, const Mat& E)
{
  double s = 0;
  for (const Vec& e : E)
    s += along<D>([&](const Pt<D>& y, double r) { return k(y, r) * along<D>(u, y, r, e); }, x, t, e);
  return s;
}
template <unsigned D>
Pt<D> gen_point(pbt::Gen& g)
{
  Pt<D> x;
  for (unsigned i = 0; i < D; ++i)
    x[i] = (double)g.raw(1000) / 1000.;
  return x;
}
double gen_time(pbt::Gen& g) { return g.chance(1, 4) ? 0. : (double)g.signed_small(16) / 8.; }
/// d orthonormal vectors: of the axes, or any
template <unsigned D>
Mat gen_frame(pbt::Gen& g, unsigned d, bool axes)
{
  Mat q(D, Vec(D, 0.));
  std::vector<unsigned> perm(D);
  for (unsigned i = 0; i < D; ++i)
    perm[i] = i;
  for (unsigned i = D; i > 1; --i)
    std::swap(perm[i - 1], perm[g.index(i)]);
  for (unsigned i = 0; i < D; ++i)
    q[i][perm[i]] = 1;
  if (!axes)
    for (unsigned i = 0; i < D; ++i)
      for (unsigned j = i + 1; j < D; ++j)
      {
        const double al = (double)g.raw(62) / 10., c = std::cos(al), s = std::sin(al);
        for (unsigned k = 0; k < D; ++k)
        {
          const double u = q[i][k], v = q[j][k];
          q[i][k] = c * u - s * v;
          q[j][k] = s * u + c * v;
        }
      }
  q.resize(d);
  return q;
}
template <unsigned D>
void describe(pbt::Gen& g, const char* name, unsigned d, const Pt<D>& x, double t)
{
  g.desc << name << " on hyperedges of dimension " << d << " at (";
  for (unsigned i = 0; i < D; ++i)
    g.desc << (i ? "," : "") << x[i];
  g.desc << ") time " << t;
  g.publish_desc();
  g.nontrivial(true);
}
#define AGREE(a, b, what) CHECK_CLOSE(a, b, 1e-6, 1. + std::abs(b), what)
template <typename A>
void all_types(const A& nodes, std::function<bool(unsigned)> which, const char* what)
{
  for (unsigned t = 0; t <= 26; ++t)
    CHECK((std::find(nodes.begin(), nodes.end(), t) != nodes.end()) == which(t), what << ": face type " << t);
}
#define VALUE(P, f) Fun<D>([](const Pt<D>& y, double r) { return (double)P::f(y, r); })
/// Boundary and initial values are those of the solution.
template <typename P, unsigned D>
void values(pbt::Gen& g, const Pt<D>& x, double t)
{
  const double u = P::analytic_result(x, t);
  AGREE(P::dirichlet_value(x, t), u, "Dirichlet value");
  AGREE(P::initial(x, t), u, "initial value");
  AGREE(P::initial(x), P::analytic_result(x), "initial value at the default time");
  AGREE(P::dirichlet_value(x), P::analytic_result(x), "Dirichlet value at the default time");
}
#if MODEL == 1 || MODEL == 2 || MODEL == 4 || MODEL == 6
template <typename P, unsigned D>
void elliptic(pbt::Gen& g, const char* name, unsigned d, const Pt<D>& x, const Mat& E)
{
  const double t = gen_time(g);
  describe<D>(g, name, d, x, t);
  AGREE(P::diffusion_coeff(x, t) * P::inverse_diffusion_coeff(x, t), 1., "coefficient times its inverse");
  AGREE(-second<D>(VALUE(P, diffusion_coeff), VALUE(P, analytic_result), x, t, E), P::right_hand_side(x, t), "-div(k grad u) and the right-hand side");
  values<P, D>(g, x, t);
  all_types(P::dirichlet_nodes, [](unsigned k) { return k > 0; }, "Dirichlet");
  all_types(P::neumann_nodes, [](unsigned) { return false; }, "Neumann");
}
template <unsigned D>
void consistency(pbt::Gen& g)
{
  Pt<D> x = gen_point<D>(g);
  switch (g.index(5))
  {
    case 0: elliptic<TestParametersSinEllipt<D, double>, D>(g, "SinEllipt", D, x, gen_frame<D>(g, D, false)); break;
    case 1:
      if (g.chance(1, 2))
        elliptic<typename HG<1>::template TestParametersQuadEllipt<D, double>, D>(g, "QuadEllipt", 1, x, gen_frame<D>(g, 1, false));
      else
        elliptic<typename HG<D>::template TestParametersQuadEllipt<D, double>, D>(g, "QuadEllipt", D, x, gen_frame<D>(g, D, false));
      break;
    case 2:
    {
      const bool line = g.chance(1, 2);
      const Mat E = gen_frame<D>(g, line ? 1 : D, true);
      for (unsigned i = 0; i < D; ++i)  // normal coordinates of hyperedges of the unit cube
      {
        bool tangential = false;
        for (const Vec& e : E)
          tangential |= e[i] != 0;
        if (!tangential)
          x[i] = (double)g.index(3) / 2.;
      }
      if (line)
        elliptic<typename HG<1>::template TestParametersQuadElliptHO<D, double>, D>(g, "QuadElliptHO", 1, x, E);
      else
        elliptic<typename HG<D>::template TestParametersQuadElliptHO<D, double>, D>(g, "QuadElliptHO", D, x, E);
      break;
    }
    case 3:
    {
      typedef TestParametersSinParab<D, double> P;
      const double t = gen_time(g);
      describe<D>(g, "SinParab", D, x, t);
      AGREE(in_time<D>(VALUE(P, analytic_result), x, t) -
              second<D>(Fun<D>([](const Pt<D>& y, double r) { return 1. / P::inverse_diffusion_coeff(y, r); }), VALUE(P, analytic_result), x, t, gen_frame<D>(g, D, false)),
            P::right_hand_side(x, t), "u_t - div(k grad u) and the right-hand side");
      values<P, D>(g, x, t);
      all_types(P::dirichlet_nodes, [](unsigned k) { return k > 0; }, "Dirichlet");
      all_types(P::neumann_nodes, [](unsigned) { return false; }, "Neumann");
      break;
    }
    default:
    {
      typedef TestParametersEigs<D, double> P;
      const double t = gen_time(g);
      describe<D>(g, "Eigs", D, x, t);
      double mode = 1;
      for (unsigned i = 0; i < D; ++i)
        mode *= std::sin(pi * x[i]);
      CHECK_CLOSE(P::initial(x, t), mode, 1e-3, 1., "initial guess and the first mode");
      AGREE(P::inverse_diffusion_coeff(x, t), 1., "coefficient");
      AGREE(P::right_hand_side(x, t), 0., "right-hand side");
      AGREE(P::dirichlet_value(x, t), 0., "Dirichlet value");
      all_types(P::dirichlet_nodes, [](unsigned k) { return k > 0; }, "Dirichlet");
      all_types(P::neumann_nodes, [](unsigned) { return false; }, "Neumann");
    }
  }
}
#elif MODEL == 3
template <typename P, unsigned D>
void transport(pbt::Gen& g, const char* name, unsigned d, const Pt<D>& x, const Mat& E)
{
  const double t = gen_time(g);
  describe<D>(g, name, d, x, t);
  auto k = [](const Pt<D>& y, double r) { return 1. / P::inverse_diffusion_coeff(y, r); };
  // the solver's velocity is that of the equation divided by the diffusion coefficient
  double adv = 0;
  for (const Vec& e : E)
    adv += along<D>(
      [&](const Pt<D>& y, double r) {
        const auto b = P::advective_velocity(y, r);
        double s = 0;
        for (unsigned i = 0; i < D; ++i)
          s += b[i] * e[i];
        return s * k(y, r) * P::analytic_result(y, r);
      },
      x, t, e);
  AGREE(-second<D>(Fun<D>(k), VALUE(P, analytic_result), x, t, E) + adv + P::reaction_rate(x, t) * P::analytic_result(x, t), P::right_hand_side(x, t),
        "div(b u - k grad u) + c u and the right-hand side");
  values<P, D>(g, x, t);
  all_types(P::dirichlet_nodes, [](unsigned j) { return j > 0; }, "Dirichlet");
  all_types(P::neumann_nodes, [](unsigned) { return false; }, "Neumann");
}
template <unsigned D>
void consistency(pbt::Gen& g)
{
  const Pt<D> x = gen_point<D>(g);
  switch (g.index(3))
  {
    case 0: transport<TestParametersSinEllipt<D, double>, D>(g, "SinEllipt", D, x, gen_frame<D>(g, D, false)); break;
    case 1: transport<typename HG<1>::template TestParametersQuadEllipt<D, double>, D>(g, "QuadEllipt", 1, x, gen_frame<D>(g, 1, false)); break;
    default: transport<typename HG<D>::template TestParametersQuadEllipt<D, double>, D>(g, "QuadEllipt", D, x, gen_frame<D>(g, D, false));
  }
}
#elif MODEL == 5 || MODEL == 7
template <typename P, unsigned D>
void plate(pbt::Gen& g, const char* name, unsigned d, const Pt<D>& x, const Mat& E, bool in_t)
{
  const double t = gen_time(g);
  describe<D>(g, name, d, x, t);
  auto k = [](const Pt<D>& y, double r) { return 1. / P::inverse_bilaplacian_coefficient(y, r); };
  const Fun<D> one = [](const Pt<D>&, double) { return 1.; };
  const double w = P::dirichlet_laplace_value(x, t);
  AGREE(-k(x, t) * second<D>(one, VALUE(P, analytic_result), x, t, E), w, "-k laplace(u) and the Dirichlet value of the Laplacian");
  AGREE(-second<D>(one, VALUE(P, dirichlet_laplace_value), x, t, E) + (in_t ? in_time<D>(VALUE(P, analytic_result), x, t) : 0.), P::right_hand_side(x, t),
        "the fourth-order equation and the right-hand side");
  if (in_t)
    AGREE(P::initial_laplace(x, t), w, "initial value of the Laplacian");
  values<P, D>(g, x, t);
  all_types(P::dirichlet_nodes, [](unsigned j) { return j > 0; }, "Dirichlet");
  all_types(P::dirichlet_laplacian_nodes, [](unsigned j) { return j > 0; }, "Dirichlet values of the Laplacian");
  all_types(P::neumann_nodes, [](unsigned) { return false; }, "Neumann");
}
template <unsigned D>
void consistency(pbt::Gen& g)
{
  const Pt<D> x = gen_point<D>(g);
  switch (g.index(5))
  {
    case 0: plate<TestParametersSinEllipt<D, double>, D>(g, "SinEllipt", D, x, gen_frame<D>(g, D, false), false); break;
    case 1: plate<typename HG<1>::template TestParametersQuadEllipt<D, double>, D>(g, "QuadEllipt", 1, x, gen_frame<D>(g, 1, false), false); break;
    case 2: plate<typename HG<D>::template TestParametersQuadEllipt<D, double>, D>(g, "QuadEllipt", D, x, gen_frame<D>(g, D, false), false); break;
    case 3: plate<TestParametersSinParab<D, double>, D>(g, "SinParab", D, x, gen_frame<D>(g, D, false), true); break;
    default:
    {
      typedef TestParametersEigs<D, double> P;
      const double t = gen_time(g);
      describe<D>(g, "Eigs", D, x, t);
      double mode = 1;
      for (unsigned i = 0; i < D; ++i)
        mode *= std::sin(pi * x[i]);
      CHECK_CLOSE(P::initial(x, t), mode, 1e-3, 1., "initial guess and the first mode");
      if (D == 1)
        CHECK_CLOSE(P::initial_laplace(x, t), pi * pi * mode, 1e-3, 1., "initial guess and the Laplacian of the first mode");
      AGREE(P::inverse_bilaplacian_coefficient(x, t), 1., "coefficient");
      AGREE(P::right_hand_side(x, t), 0., "right-hand side");
      AGREE(P::dirichlet_value(x, t), 0., "Dirichlet value");
      AGREE(P::dirichlet_laplace_value(x, t), 0., "Dirichlet value of the Laplacian");
      all_types(P::dirichlet_nodes, [](unsigned j) { return j > 0; }, "Dirichlet");
      all_types(P::dirichlet_laplacian_nodes, [](unsigned j) { return j > 0; }, "Dirichlet values of the Laplacian");
    }
  }
}
#elif MODEL == 8
/// Slotted disk, cone and hump of LeVeque's rotation; the disk may be a square.
double bodies(double x, double y, bool square)
{
  const double r = 0.15;
  auto dist = [&](double a, double b) { return std::hypot(x - a, y - b); };
  const double disk = square ? std::max(std::abs(x - 0.5), std::abs(y - 0.75)) : dist(0.5, 0.75);
  if (disk <= r && (std::abs(x - 0.5) >= 0.025 || y >= 0.85))
    return 1;
  if (dist(0.5, 0.25) <= r)
    return 1 - dist(0.5, 0.25) / r;
  if (dist(0.25, 0.5) <= r)
    return 0.25 * (1 + std::cos(pi * dist(0.25, 0.5) / r));
  return 0;
}
bool near_jump(double x, double y)  // the comparison there depends on rounding
{
  const double r = 0.15, e = 1e-9;
  return std::abs(std::hypot(x - 0.5, y - 0.75) - r) < e || std::abs(std::max(std::abs(x - 0.5), std::abs(y - 0.75)) - r) < e ||
         std::abs(std::abs(x - 0.5) - 0.025) < e || std::abs(y - 0.85) < e;
}
template <unsigned D>
void consistency(pbt::Gen& g)
{
  Pt<D> x = gen_point<D>(g);
  const double t = gen_time(g);
  const unsigned what = (unsigned)g.index(3);
  if (what == 0 || D == 1)
  {
    typedef TestParametersSinParab<D, double> P;
    describe<D>(g, "SinParab", D, x, t);
    double adv = 0;
    for (unsigned i = 0; i < D; ++i)
    {
      Vec e(D, 0.);
      e[i] = 1;
      adv += along<D>([&](const Pt<D>& y, double r) { return P::velocity(y, r)[i] * P::analytic_result(y, r); }, x, t, e);
    }
    AGREE(in_time<D>(VALUE(P, analytic_result), x, t) + adv, P::right_hand_side(x, t), "u_t + div(b u) and the right-hand side");
    values<P, D>(g, x, t);
    // the inflow is where the first coordinate is smallest, the outflow where it is largest
    CHECK(P::velocity(x, t)[0] > 0, "direction of the flow");
    all_types(P::dirichlet_nodes, [](unsigned k) { return k % 3 == 1; }, "inflow");
    all_types(P::outflow_nodes, [](unsigned k) { return k % 3 == 2; }, "outflow");
    all_types(P::boundary_nodes, [](unsigned) { return false; }, "boundary");
    return;
  }
  if constexpr (D == 2)
  {
    typedef LeVeque<2, double> P;
    describe<D>(g, "LeVeque", D, x, t);
    const auto v = P::velocity(x, t);
    AGREE(v[0], -(x[1] - 0.5), "rotation about the centre");
    AGREE(v[1], x[0] - 0.5, "rotation about the centre");
    if (!near_jump(x[0], x[1]))
      AGREE(P::analytic_result(x, t), bodies(x[0], x[1], false), "the three bodies");
    AGREE(P::right_hand_side(x, t), 0., "right-hand side");
    values<P, D>(g, x, t);
    all_types(P::boundary_nodes, [](unsigned k) { return k > 0; }, "boundary");
  }
  if constexpr (D == 3)
  {
    // the bodies sit in the plane y = 0 and are shifted by two to the left
    const double px = x[0], pz = x[2];
    x[0] -= 2;
    x[1] = 0;
    auto check = [&]<typename P>(P, const char* name, bool square) {
      describe<D>(g, name, D, x, t);
      if (!near_jump(px, pz))
        AGREE(P::analytic_result(x, t), bodies(px, pz, square), "the three bodies");
      AGREE(P::right_hand_side(x, t), 0., "right-hand side");
      values<P, D>(g, x, t);
      Pt<D> y;
      y[0] = (double)g.signed_small(8) / 4.;
      y[1] = (double)g.signed_small(4) / 4.;
      y[2] = (double)g.raw(4) / 4.;
      const auto v = P::velocity(y, t);
      AGREE(v[0], y[0] * y[1] < 0 ? 2. : 1., "velocity");
      AGREE(v[1], 0., "velocity");
      AGREE(v[2], 0., "velocity");
    };
    if (what == 1)
      check(LeVequeHG<3, double>(), "LeVequeHG", false);
    else
      check(HyperGraphMovie<3, double>(), "HyperGraphMovie", true);
  }
}
#endif
#if MODEL == 1 || MODEL == 3 || MODEL == 5 || MODEL == 8
FAMILY("consistency", 20000, 400000, "every case")
{
  switch (g.index(3))
  {
    case 0: consistency<1>(g); break;
    case 1: consistency<2>(g); break;
    default: consistency<3>(g);
  }
}
#endif
// ---- convergence ------------------------------------------------------------------------------------------
// Constants of the error bounds: about three times the largest ones observed.
constexpr double SIN_C[][4] = {{}, {1, .5, .06, .006}, {1, .25, .015, .001}, {1, .08, .01, .00025}, {1, .4, .06, .0045}, {1, 10, 2, .35}};
constexpr double QUAD_C[][2] = {{}, {1, .3}, {1, .2}, {1, .3}, {1, .5}, {1, .3}};
constexpr double SPACE[][4] = {{1, 1.2, .3, .06}, {1, 8, 2.2, .4}, {1, 1.2, .35, .06}}, TIME[][2] = {{1.2, .8}, {.4, 0}, {2, 1.2}};
/// Solves A x + b = 0; rows without entries belong to prescribed degrees of freedom.
Vec solve(const std::function<Vec(const Vec&)>& A, const Vec& b)
{
  const size_t n = b.size();
  Mat M(n, Vec(n + 1, 0.));
  double big = 0;
  for (size_t j = 0; j < n; ++j)
  {
    Vec e(n, 0.);
    e[j] = 1;
    const Vec c = A(e);
    CHECK(c.size() == n, "length of the result of the operator");
    for (size_t i = 0; i < n; ++i)
    {
      CHECK(std::isfinite(c[i]), "the operator returns " << c[i]);
      M[i][j] = c[i], big = std::max(big, std::abs(c[i]));
    }
  }
  if (big == 0)
    big = 1;
  for (size_t i = 0; i < n; ++i)
  {
    double row = 0;
    for (size_t j = 0; j < n; ++j)
      row = std::max(row, std::abs(M[i][j]));
    if (row <= 1e-13 * big)
    {
      for (size_t k = 0; k < n; ++k)
        M[i][k] = M[k][i] = 0;
      M[i][i] = big;
    }
    else
      M[i][n] = -b[i];
  }
  for (size_t i = 0; i < n; ++i)
  {
    size_t pv = i;
    for (size_t k = i; k < n; ++k)
      if (std::abs(M[k][i]) > std::abs(M[pv][i]))
        pv = k;
    std::swap(M[i], M[pv]);
    CHECK(std::abs(M[i][i]) > 1e-13 * big, "the global system is singular (unknown " << i << ")");
    for (size_t k = i + 1; k < n; ++k)
    {
      const double f = M[k][i] / M[i][i];
      if (f != 0)
        for (size_t j = i; j <= n; ++j)
          M[k][j] -= f * M[i][j];
    }
  }
  Vec x(n);
  for (size_t i = n; i-- > 0;)
  {
    double s = M[i][n];
    for (size_t j = i + 1; j < n; ++j)
      s -= M[i][j] * x[j];
    x[i] = s / M[i][i];
  }
  return x;
}
#ifdef RATIO
#define BOUND(e, b, what) (fprintf(fopen(getenv("RATIO_FILE"), "a"), "RATIO %s;%g;%g;%s\n", what, (double)(e), (double)(e) / (double)(b), g.desc.str().c_str()), fflush(nullptr))
#else
#define BOUND(e, b, what)                                                                                  \
  do                                                                                                       \
  {                                                                                                        \
    const double e_ = (e), b_ = (b);                                                                       \
    CHECK(e_ <= b_, what << ": the error " << e_ << " exceeds what a converging method has (" << b_ << ")"); \
  } while (0)
#endif
template <unsigned d, class S, template <class, class, class, class, class, class> class L>
using Loop = L<Topology::Cubic<d, d>, Geometry::UnitCube<d, d, double>, NodeDescriptor::Cubic<d, d>, S, Vec, unsigned int>;
template <unsigned d>
SmallVec<d, unsigned int> cells(pbt::Gen& g, unsigned& r, unsigned n)
{
  // as many elements, or as refined elements
  r = n % 2 == 0 && g.chance(1, 3) ? 2 : 1;
  return SmallVec<d, unsigned int>(n / r);
}
#if MODEL <= 5
template <unsigned d, class S, typename T>
double error(pbt::Gen& g, unsigned n, T tau)
{
  unsigned r;
  Loop<d, S, GlobalLoop::Elliptic> loop(cells<d>(g, r, n), tau);
  loop.set_refinement(r);
  const Vec x = solve([&](const Vec& v) { return loop.trace_to_flux(v); }, loop.residual_flux(loop.zero_vector()));
  return loop.errors(x)[0];
}
template <unsigned d, unsigned p, class S>
void converge(pbt::Gen& g, const char* name, double c)
{
  const unsigned n = d == 1 ? 2 + (unsigned)g.index(7) : 2 + (unsigned)g.index(2);
  double tau = g.positive(0.5, 2.);
  g.desc << name << " d=" << d << " p=" << p << " tau=" << tau << " n=" << n;
  g.publish_desc();
  g.nontrivial(true);
  auto at = [&](unsigned m) { return MODEL == 4 ? 5. * (d + 1) * p * p * p * m * tau : tau; };
  const double order = p + 1. + (MODEL == 2 && p > 0), e1 = error<d, S>(g, n, at(n)), e2 = error<d, S>(g, 2 * n, at(2 * n));
  CHECK(e1 >= 0 && e2 >= 0, "errors " << e1 << " and " << e2);
  BOUND(e1, c * std::pow(1. / n, order) + 1e-9, "coarse");
  BOUND(e2, c * std::pow(.5 / n, order) + 1e-9, "fine");
}
#if MODEL == 1
template <unsigned d, unsigned p, template <unsigned, typename> class P>
using Sol = LocalSolver::Diffusion<d, p, 2 * p + 4, P, double>;
#elif MODEL == 2
template <unsigned d, unsigned p, template <unsigned, typename> class P>
using Sol = LocalSolver::DiffusionPostprocess<d, p, 2 * p + 4, P, double>;
#elif MODEL == 3
template <unsigned d, unsigned p, template <unsigned, typename> class P>
using Sol = LocalSolver::DiffusionAdvectionReaction<d, p, 2 * p + 4, P, double>;
#elif MODEL == 4
template <unsigned d, unsigned p, template <unsigned, typename> class P>
using Sol = LocalSolver::DiffusionIP<d, p, 2 * p + 4, P, double>;
#elif MODEL == 5
template <unsigned d, unsigned p, template <unsigned, typename> class P>
using Sol = LocalSolver::Bilaplacian<d, p, 2 * p + 4, P, double>;
#endif
template <unsigned d, unsigned p>
void sin_problem(pbt::Gen& g)
{
  converge<d, p, Sol<d, p, TestParametersSinEllipt>>(g, "SinEllipt", SIN_C[MODEL][p]);
}
template <unsigned d, unsigned p>
void quad_problem(pbt::Gen& g)
{
  converge<d, p, Sol<d, p, HG<d>::template TestParametersQuadEllipt>>(g, "QuadEllipt", QUAD_C[MODEL][p]);
}
typedef void (*fn)(pbt::Gen&);
static const fn prob[] = {sin_problem<1, 1>, sin_problem<1, 2>, sin_problem<1, 3>, sin_problem<2, 1>, sin_problem<2, 2>, quad_problem<1, 1>, quad_problem<2, 1>};
FAMILY("convergence", 60, 1200, "every case") { prob[g.index(std::size(prob))](g); }
#else
#if MODEL == 6
template <unsigned d, unsigned p, template <unsigned, typename> class P>
using Sol = LocalSolver::DiffusionParab<d, p, 2 * p + 4, P, double>;
#elif MODEL == 7
template <unsigned d, unsigned p, template <unsigned, typename> class P>
using Sol = LocalSolver::BilaplacianParab<d, p, 2 * p + 4, P, double>;
#else
template <unsigned d, unsigned p, template <unsigned, typename> class P>
using Sol = LocalSolver::AdvectionParab<d, p, 2 * p + 4, P, double>;
#endif
template <unsigned d, unsigned p>
void march(pbt::Gen& g)
{
  unsigned n = d == 1 ? 2 + (unsigned)g.index(7) : 2 + (unsigned)g.index(2), r;
  const double theta = MODEL != 7 && g.chance(1, 2) ? 0.5 : 1., end = 0.25;
  const unsigned steps = 2u << g.index(d == 1 ? 5 : 3);
  const double dt = end / steps, start = (double)g.raw(8) / 8.;
  const double tau = MODEL == 8 && g.chance(1, 2) ? 0. : g.positive(0.5, 2.);
  g.desc << "SinParab d=" << d << " p=" << p << " tau=" << tau << " n=" << n << " theta=" << theta << " steps=" << steps << " start=" << start;
  g.publish_desc();
  g.nontrivial(steps > 2);
  Loop<d, Sol<d, p, TestParametersSinParab>, GlobalLoop::Parabolic> loop(cells<d>(g, r, n), std::vector<double>{tau, theta, dt});
  loop.set_refinement(r);
  Vec x = loop.make_initial(loop.zero_vector(), start);
  double e = 0;
  for (unsigned k = 1; k <= steps; ++k)
  {
    const double t = start + k * dt;
    x = solve([&](const Vec& v) { return loop.trace_to_flux(v, t); }, loop.residual_flux(loop.zero_vector(), t));
    if (MODEL == 7)
      e = loop.errors(x, t)[0];
    loop.set_data(x, t);
    if (MODEL != 7)
      e = loop.errors(x, t)[0];
  }
  BOUND(e, SPACE[MODEL - 6][p] * std::pow(1. / n, p + 1.) + (theta == 1. ? TIME[MODEL - 6][0] * dt : TIME[MODEL - 6][1] * dt * dt) + 1e-8, "in time");
}
typedef void (*fn)(pbt::Gen&);
static const fn prob[] = {march<1, 1>, march<1, 2>, march<1, 3>, march<2, 1>, march<2, 2>};
FAMILY("convergence", 60, 1200, "more than two steps") { prob[g.index(std::size(prob))](g); }
#endif
}  // namespace
