// P26, P27, P30: everything together. A problem is posed on a generated hypergraph, the global system is built
// from the library's matrix-free operator and solved by our own elimination, and the discrete
// solution must be the exact one whenever that one lies in the discrete space. PIPE selects the solver.
#include "domain_common.hxx"
#include "local_common.hxx"
#include <HyperHDG/geometry/file.hxx>
#include <HyperHDG/geometry/unit_cube.hxx>
#include <HyperHDG/global_loop/elliptic.hxx>
#include <HyperHDG/global_loop/parabolic.hxx>
#include <HyperHDG/node_descriptor/cubic.hxx>
#include <HyperHDG/node_descriptor/file.hxx>
#include <HyperHDG/topology/cubic.hxx>
#include <HyperHDG/topology/file.hxx>
#if PIPE == 1
#include <HyperHDG/local_solver/diffusion_ldgh.hxx>
#elif PIPE == 2
#include <HyperHDG/local_solver/diffusion_ldgh_pp.hxx>
#elif PIPE == 3
#include <HyperHDG/local_solver/diffusion_advection_reaction_ldg.hxx>
#elif PIPE == 4
#include <HyperHDG/local_solver/diffusion_ip.hxx>
#elif PIPE == 5
#include <HyperHDG/local_solver/bilaplacian_ldgh.hxx>
#elif PIPE == 6
#include <HyperHDG/local_solver/timoshenko_network.hxx>
#elif PIPE == 7
#include <HyperHDG/local_solver/diffusion_parab_ldgh.hxx>
#elif PIPE == 8
#include <HyperHDG/local_solver/bilaplacian_parab_ldgh.hxx>
#elif PIPE == 9
#include <HyperHDG/local_solver/advection_parab_ldgh.hxx>
#elif PIPE == 10
#include <HyperHDG/local_solver/diffusion_eigs_ldgh.hxx>
#elif PIPE == 11
#include <HyperHDG/local_solver/bilaplacian_eigs_ldgh.hxx>
#elif PIPE == 12
#include <HyperHDG/local_solver/diffusion_ldgh.hxx>
#elif PIPE == 13
#include <HyperHDG/local_solver/bilaplacian_ldgh.hxx>
#endif
#if PIPE >= 10
#include <HyperHDG/global_loop/mass_approx_eigenvalue.hxx>
#include <HyperHDG/global_loop/nonlinear_eigenvalue.hxx>
#include <HyperHDG/global_loop/shifted_inverse_eigenvalue.hxx>
#endif
using loc::Vec;
using loc::fun;
namespace
{
// ---- polynomials in space, affine in time ---------------------------------------------------------------
struct Mono
{
  double c, ct;
  std::vector<unsigned> e;
};
struct MPoly
{
  std::vector<Mono> m;
  double operator()(const Vec& x, double t) const
  {
    double s = 0;
    for (const Mono& k : m)
    {
      double v = k.c + t * k.ct;
      for (unsigned i = 0; i < x.size(); ++i)
        for (unsigned j = 0; j < k.e[i]; ++j)
          v *= x[i];
      s += v;
    }
    return s;
  }
  MPoly d(unsigned i) const
  {
    MPoly r;
    for (Mono k : m)
      if (k.e[i])
      {
        k.c *= k.e[i];
        k.ct *= k.e[i];
        --k.e[i];
        r.m.push_back(k);
      }
    return r;
  }
  MPoly dt() const
  {
    MPoly r;
    for (Mono k : m)
    {
      k.c = k.ct;
      k.ct = 0;
      r.m.push_back(k);
    }
    return r;
  }
  MPoly operator*(double a) const
  {
    MPoly r = *this;
    for (Mono& k : r.m)
      k.c *= a, k.ct *= a;
    return r;
  }
  MPoly operator+(const MPoly& o) const
  {
    MPoly r = *this;
    r.m.insert(r.m.end(), o.m.begin(), o.m.end());
    return r;
  }
};
MPoly gen_poly(pbt::Gen& g, unsigned D, unsigned deg)
{
  MPoly r;
  const unsigned n = 1 + (unsigned)g.index(5);
  for (unsigned k = 0; k < n; ++k)
  {
    Mono m{g.signed_small(12) / 4., g.chance(1, 2) ? g.signed_small(12) / 4. : 0., std::vector<unsigned>(D, 0)};
    for (unsigned left = deg; left > 0; --left)
      if (g.chance(3, 4))
        ++m.e[g.index(D)];
    r.m.push_back(m);
  }
  return r;
}
typedef std::vector<Vec> Mat;
/// sum_ij P_ij d_i d_j u
MPoly laplace(const MPoly& u, const Mat& P)
{
  MPoly r;
  for (unsigned i = 0; i < P.size(); ++i)
    for (unsigned j = 0; j < P.size(); ++j)
      r = r + u.d(i).d(j) * P[i][j];
  return r;
}
void set(unsigned k, const MPoly& p)
{
  fun(k) = loc::Fun();
  fun(k).other = [p](const Vec& x, double t) { return p(x, t); };
}
void set(unsigned k, double v)
{
  fun(k) = loc::Fun();
  fun(k).c.push_back(v);
}
#if PIPE == 6
enum
{
  FN,
  FM,
  DU,
  DP,
  AU,
  AP,
  N_VEC
};
MPoly fv[N_VEC][3];
#define BEAM_FUN(NAME, K)                                                   \
  static F NAME(const Point<D, F>& p, const Point<D, F>& n, const F t = 0.) \
  {                                                                         \
    F r = 0;                                                                \
    for (unsigned i = 0; i < 3; ++i)                                        \
      r += fv[K][i](Vec{p[0], p[1], p[2]}, t) * n[i];                       \
    return r;                                                               \
  }
#endif
template <unsigned int D, typename F = double>
struct Par
{
  static constexpr std::array<unsigned int, 26U> dirichlet_nodes = [] {
    std::array<unsigned int, 26U> a{};
    for (unsigned i = 0; i < 26; ++i)
      a[i] = PIPE == 9 ? 100 + i : 1 + i;
    return a;
  }();
  static constexpr std::array<unsigned int, 26U> dirichlet_laplacian_nodes = dirichlet_nodes;
  static constexpr std::array<unsigned int, 26U> boundary_nodes = [] {
    std::array<unsigned int, 26U> a{};
    for (unsigned i = 0; i < 26; ++i)
      a[i] = 1 + i;
    return a;
  }();
  static constexpr std::array<unsigned int, 0U> neumann_nodes{}, outflow_nodes{}, neumann_laplacian_nodes{};
#if PIPE == 6
  BEAM_FUN(right_hand_side_n, FN)
  BEAM_FUN(right_hand_side_m, FM)
  BEAM_FUN(dirichlet_value_u, DU)
  BEAM_FUN(dirichlet_value_phi, DP)
  BEAM_FUN(analytic_result_u, AU)
  BEAM_FUN(analytic_result_phi, AP)
#else
  LOC_ALL_FUNS
#endif
};
template <unsigned d, unsigned p>
#if PIPE == 1
using Solver = LocalSolver::Diffusion<d, p, 2 * p + 2, Par, double>;
#elif PIPE == 2
using Solver = LocalSolver::DiffusionPostprocess<d, p, 2 * p + 4, Par, double>;
#elif PIPE == 3
using Solver = LocalSolver::DiffusionAdvectionReaction<d, p, 2 * p + 2, Par, double>;
#elif PIPE == 4
using Solver = LocalSolver::DiffusionIP<d, p, 2 * p + 2, Par, double>;
#elif PIPE == 5
using Solver = LocalSolver::Bilaplacian<d, p, 2 * p + 2, Par, double>;
#elif PIPE == 6
using Solver = LocalSolver::TimoshenkoBeam<d, 3, p, 2 * p + 2, Par, double>;
#elif PIPE == 7
using Solver = LocalSolver::DiffusionParab<d, p, 2 * p + 2, Par, double>;
#elif PIPE == 8
using Solver = LocalSolver::BilaplacianParab<d, p, 2 * p + 2, Par, double>;
#elif PIPE == 9
using Solver = LocalSolver::AdvectionParab<d, p, 2 * p + 2, Par, double>;
#elif PIPE == 10
using Solver = LocalSolver::DiffusionEigs<d, p, 2 * p + 2, Par, double>;
#elif PIPE == 11
using Solver = LocalSolver::BilaplacianEigs<d, p, 2 * p + 2, Par, double>;
#elif PIPE == 12
using Solver = LocalSolver::Diffusion<d, p, 2 * p + 2, Par, double>;
#elif PIPE == 13
using Solver = LocalSolver::Bilaplacian<d, p, 2 * p + 2, Par, double>;
#endif

// ---- the global system ------------------------------------------------------------------------------------
/// Solves A x + b = 0; rows without any entry belong to prescribed degrees of freedom (x = 0).
Vec solve(const std::function<Vec(const Vec&)>& A, const Vec& b)
{
  const size_t n = b.size();
  if (n > 130)  // every column costs an application of the operator
    throw pbt::Discard();
  Mat M(n, Vec(n + 1, 0.));
  double big = 0;
  for (size_t j = 0; j < n; ++j)
  {
    Vec e(n, 0.);
    e[j] = 1;
    const Vec c = A(e);
    CHECK(c.size() == n, "the operator returns a vector of length " << c.size() << " instead of " << n);
    for (size_t i = 0; i < n; ++i)
    {
      CHECK(std::isfinite(c[i]), "the operator returns " << c[i]);
      M[i][j] = c[i], big = std::max(big, std::abs(c[i]));
    }
  }
  if (big == 0)
    big = 1;  // everything is prescribed
  double bmax = 0;
  for (double v : b)
    bmax = std::max(bmax, std::abs(v));
  std::vector<char> fixed(n, 0);
  for (size_t i = 0; i < n; ++i)
  {
    double row = 0;
    for (size_t j = 0; j < n; ++j)
      row = std::max(row, std::abs(M[i][j]));
    if (row <= 1e-13 * big)
    {
      CHECK(std::abs(b[i]) <= 1e-10 * (1 + bmax), "degree of freedom " << i << " has no equation, but the residual " << b[i]);
      fixed[i] = 1;
    }
  }
  for (size_t i = 0; i < n; ++i)
    if (fixed[i])
    {
      for (size_t k = 0; k < n; ++k)
        M[i][k] = M[k][i] = 0;
      M[i][i] = big;
    }
    else
      M[i][n] = -b[i];
  for (size_t i = 0; i < n; ++i)
  {
    size_t pv = i;
    for (size_t k = i; k < n; ++k)
      if (std::abs(M[k][i]) > std::abs(M[pv][i]))
        pv = k;
    std::swap(M[i], M[pv]);
    CHECK(std::abs(M[i][i]) > 1e-12 * big, "the global system is singular (unknown " << i << ")");
    for (size_t k = i + 1; k < n; ++k)
    {
      const double f = M[k][i] / M[i][i];
      if (f != 0)
        for (size_t j = i; j <= n; ++j)
          M[k][j] -= f * M[i][j];
    }
  }
  Vec x(n);
  for (size_t i = n; i-- > 0;)
  {
    double s = M[i][n];
    for (size_t j = i + 1; j < n; ++j)
      s -= M[i][j] * x[j];
    x[i] = s / M[i][i];
  }
  return x;
}
// ---- graphs -----------------------------------------------------------------------------------------------
template <typename V>
void shuffle(pbt::Gen& g, V& v)
{
  if (g.chance(2, 3))
    for (size_t i = v.size(); i > 1; --i)
      std::swap(v[i - 1], v[g.index(i)]);
}
/// An affine image of a grid of hyperedges in space, everything renumbered.
template <unsigned d, unsigned D>
struct Patch
{
  dom::Model m;
  Mat proj;  // projection onto the tangential space
  Vec normal[2 * d];
  Vec side;              // lengths of the sides
  std::vector<unsigned> n;  // cells per direction
};
template <unsigned d, unsigned D>
Patch<d, D> gen_patch(pbt::Gen& g, bool box = false, bool plate = false)
{
  Patch<d, D> r;
  auto geo = loc::gen_geom<d, D>(g);
  if (box)
    for (unsigned i = 0; i < d; ++i)
      for (unsigned j = 0; j < d; ++j)
        if (i != j)
          geo.R(i, j) = 0;
  if (plate)  // the eigenvalues of small plates drown in rounding errors
    while (std::abs((double)geo.R(0, 0)) < 0.3)
      geo.R *= 4.;
  unsigned n[3] = {1, 1, 1};
  for (unsigned k = 0; k < d; ++k)
    n[k] = 1 + (unsigned)g.index(d == 1 ? 5 : d == 2 ? 3 : 2);
  for (unsigned k = 0; k < d; ++k)
  {
    r.side.push_back(2 * std::abs((double)geo.R(k, k)));
    r.n.push_back(n[k]);
  }
  r.m.d = d;
  r.m.D = D;
  // vertices
  unsigned np = 1;
  for (unsigned k = 0; k < d; ++k)
    np *= n[k] + 1;
  std::vector<unsigned> lab(np);
  for (unsigned i = 0; i < np; ++i)
    lab[i] = i;
  shuffle(g, lab);
  r.m.points.resize(np);
  for (unsigned i = 0; i < np; ++i)
  {
    Vec xi(d);
    for (unsigned k = 0, q = i; k < d; ++k)
      xi[k] = q % (n[k] + 1) / (double)n[k] * 2., q /= n[k] + 1;
    r.m.points[lab[i]] = geo.phys(xi);
  }
  // cells and faces
  std::map<std::vector<unsigned>, unsigned> faces;
  std::vector<std::vector<unsigned>> cells;
  for (unsigned c = 0; c < n[0] * n[1] * n[2]; ++c)
  {
    std::vector<unsigned> ix(d);
    for (unsigned k = 0, q = c; k < d; ++k)
      ix[k] = q % n[k], q /= n[k];
    cells.push_back(ix);
  }
  shuffle(g, cells);
  auto face = [&](const std::vector<unsigned>& ix, unsigned f) {
    std::vector<unsigned> k = ix;
    k[f / 2] += f % 2;
    k.push_back(f / 2);
    return k;
  };
  std::vector<std::vector<unsigned>> all;
  for (const auto& ix : cells)
    for (unsigned f = 0; f < 2 * d; ++f)
      if (faces.emplace(face(ix, f), 0).second)
        all.push_back(face(ix, f));
  shuffle(g, all);
  for (unsigned i = 0; i < all.size(); ++i)
    faces[all[i]] = i;
  r.m.n_nodes = all.size();
  for (const auto& ix : cells)
  {
    r.m.nodes.emplace_back();
    r.m.types.emplace_back();
    r.m.pts.emplace_back();
    for (unsigned f = 0; f < 2 * d; ++f)
    {
      r.m.nodes.back().push_back(faces[face(ix, f)]);
      const unsigned pos = ix[f / 2] + f % 2;
      r.m.types.back().push_back(pos == 0 || pos == n[f / 2] ? 1 + g.index(3) : 0);
    }
    for (unsigned v = 0; v < (1u << d); ++v)
    {
      unsigned id = 0;
      for (unsigned k = d; k-- > 0;)
        id = id * (n[k] + 1) + ix[k] + (v >> k & 1);
      r.m.pts.back().push_back(lab[id]);
    }
  }
  r.proj.assign(D, Vec(D, 0.));
  for (unsigned i = 0; i < D; ++i)
    for (unsigned j = 0; j < D; ++j)
      for (unsigned k = 0; k < d; ++k)
        r.proj[i][j] += geo.Q(i, k) * geo.Q(j, k);
  for (unsigned f = 0; f < 2 * d; ++f)
  {
    const auto nv = geo.inner_normal(f);
    for (unsigned i = 0; i < D; ++i)
      r.normal[f].push_back(nv[i]);
  }
  return r;
}
std::string to_file(pbt::Gen& g, const dom::Model& m)
{
  return dom::write(dom::text_of(m, g.chance(1, 3) ? &g : nullptr, false), nullptr, g.scratch + "/pipeline.geo");
}
/// A random network of straight lines; every component contains a prescribed node.
template <unsigned D>
dom::Model gen_network(pbt::Gen& g, std::vector<char>& fixed)
{
  dom::Model m;
  m.d = 1;
  m.D = D;
  const unsigned n = 2 + (unsigned)g.index(6);
  std::set<Vec> seen;
  for (unsigned i = 0; i < n; ++i)
  {
    Vec p(D);
    for (double& x : p)
      x = g.signed_small(12) / 4. + (D > 1 ? (double)g.raw(7) / 100. : 0.);
    for (const Vec& q : seen)
    {
      double s = 0;
      for (unsigned k = 0; k < D; ++k)
        s += (p[k] - q[k]) * (p[k] - q[k]);
      if (s < 0.04)
        throw pbt::Discard();
    }
    seen.insert(p);
    m.points.push_back(p);
  }
  std::vector<unsigned> comp(n), nlab(n);
  for (unsigned i = 0; i < n; ++i)
    comp[i] = nlab[i] = i;
  shuffle(g, nlab);  // hypernode of point i
  std::set<std::pair<unsigned, unsigned>> used;
  const unsigned ne = 1 + (unsigned)g.index(9);
  for (unsigned e = 0; e < ne; ++e)
  {
    const unsigned a = (unsigned)g.index(n);
    unsigned b = (unsigned)g.index(n - 1);
    b += b >= a;
    if (!used.insert({std::min(a, b), std::max(a, b)}).second)
      continue;
    m.nodes.push_back({nlab[a], nlab[b]});
    m.pts.push_back({a, b});
    const unsigned ca = comp[a], cb = comp[b];
    for (unsigned& c : comp)
      if (c == ca)
        c = cb;
  }
  m.n_nodes = n;
  fixed.assign(n, 0);
  for (unsigned i = 0; i < n; ++i)
    fixed[nlab[i]] = g.chance(1, 4);
  for (unsigned c = 0; c < n; ++c)
  {
    bool any = false;
    for (unsigned i = 0; i < n; ++i)
      any |= comp[i] == c && fixed[nlab[i]];
    for (unsigned i = 0; i < n && !any; ++i)
      if (comp[i] == c)
        fixed[nlab[i]] = 1, any = true;
  }
  for (const auto& e : m.nodes)
  {
    m.types.emplace_back();
    for (auto k : e)
      m.types.back().push_back(fixed[k] ? 1 + g.index(3) : 0);
  }
  return m;
}
double norm(const std::vector<double>& errors)
{
  CHECK(errors.size() >= 1, "no error");
  return errors[0];
}
unsigned gen_refinement(pbt::Gen& g, unsigned d) { return 1 + (unsigned)g.index(d == 1 ? 4 : d == 2 ? 3 : 2); }

#if PIPE <= 5
constexpr unsigned MIN_DEG = 0;
/// What is prescribed so that u is the solution; b: constant velocity, P: tangential projection.
template <unsigned D>
void pose(pbt::Gen& g, const MPoly& u, const Mat& P)
{
  const double kinv = g.positive(0.4, 3.);
  set(loc::KINV, kinv);
  set(loc::KAPPA, 1. / kinv);
  set(loc::ANA, u);
  set(loc::DIR, u);
  set(loc::INI, u);
#if PIPE == 5
  const MPoly w = laplace(u, P) * (-1. / kinv);
  set(loc::DIRL, w);
  set(loc::RHS, laplace(w, P) * -1.);
#else
  MPoly f = laplace(u, P) * (-1. / kinv);
#if PIPE == 3
  const double rate = g.positive(0., 2.);
  set(loc::RATE, rate);
  f = f + u * rate;
  Vec b(D);
  for (unsigned i = 0; i < D; ++i)
  {
    b[i] = g.signed_small(8) / 4.;
    set(loc::VEL0 + i, b[i]);
  }
  for (unsigned i = 0; i < D; ++i)
    for (unsigned j = 0; j < D; ++j)
      f = f + u.d(j) * (P[i][j] * b[i] / kinv);
#endif
  set(loc::RHS, f);
#endif
}
/// Solves on a sequence of refinements.
template <typename G, unsigned d>
void steady(pbt::Gen& g, G& loop)
{
  const unsigned rounds = 1 + (unsigned)g.index(2);
  for (unsigned k = 0; k < rounds; ++k)
  {
    unsigned r = 1;
    if (k > 0 || g.chance(1, 2))
    {
      r = gen_refinement(g, d);
      loop.set_refinement(r);
      CHECK(loop.get_refinement() == r, "refinement");
    }
    const double t = (double)g.raw(8) / 4.;
    g.desc << " | refinement " << r << " time " << t << " unknowns " << loop.size_of_system();
    g.publish_desc();
    const Vec zero = loop.zero_vector();
    CHECK(zero.size() == loop.size_of_system(), "length of the zero vector");
    const Vec x = solve([&](const Vec& v) { return loop.trace_to_flux(v, t); }, loop.residual_flux(zero, t));
    double sc = 1;
    for (double v : x)
      sc = std::max(sc, std::abs(v));
    const double e = norm(loop.errors(x, t));
    CHECK_CLOSE(e, 0., 1e-7, 10 * sc, "the solution lies in the discrete space, but the error is not zero");
    for (double v : loop.residual_flux(x, t))
      CHECK_CLOSE(v, 0., 1e-8, 100 * sc, "residual of the solution");
  }
}
template <unsigned d, unsigned D, unsigned p>
void cubic(pbt::Gen& g)
{
  typedef GlobalLoop::Elliptic<Topology::Cubic<d, D>, Geometry::UnitCube<d, D>, NodeDescriptor::Cubic<d, D>, Solver<d, p>> G;
  SmallVec<D, unsigned int> n;
  for (unsigned k = 0; k < D; ++k)
    n[k] = 1 + (unsigned)g.index(D == 1 ? 6 : D == 2 ? 3 : 2);
  MPoly u;
  Mat P(D, Vec(D, 0.));
  for (unsigned i = 0; i < D; ++i)
    P[i][i] = 1;
  if (d == D)
    u = gen_poly(g, D, p);
  else
  {
    // all tangential Laplacians coincide
    u = gen_poly(g, D, 0);
    const double a = p > 1 ? g.signed_small(8) / 4. : 0.;
    for (unsigned i = 0; i < D; ++i)
    {
      std::vector<unsigned> e(D, 0);
      e[i] = 1;
      if (p > 0)
        u.m.push_back({g.signed_small(8) / 4., g.signed_small(4) / 4., e});
      e[i] = 2;
      u.m.push_back({a, 0., e});
      for (unsigned j = 0; j < i && p > 1; ++j)
      {
        e[i] = e[j] = 1;
        u.m.push_back({g.signed_small(8) / 4., 0., e});
        e[j] = 0;
      }
      P[i][i] = (double)d / D;
    }
  }
  pose<D>(g, u, P);
#if PIPE == 3
  if (d < D)
  {
    for (unsigned i = 0; i < D; ++i)
      set(loc::VEL0 + i, 0.);
    set(loc::RHS, laplace(u, P) * (-1. / fun(loc::KINV).c[0]) + u * (fun(loc::RATE).c.empty() ? 0. : fun(loc::RATE).c[0]));
  }
#endif
  const double tau = g.positive(0.3, 3.);
  g.desc << "cubic " << d << " in " << D << " p=" << p << " tau=" << tau << " elements";
  for (unsigned k = 0; k < D; ++k)
    g.desc << " " << n[k];
  g.publish_desc();
  unsigned total = 1;
  for (unsigned k = 0; k < D; ++k)
    total *= n[k];
  g.nontrivial(total > 1 && p > 0 && !u.m.empty());
  G loop(n, PIPE == 4 ? tau + 20. : tau);
  steady<G, d>(g, loop);
}
template <unsigned d, unsigned D, unsigned p>
void patch(pbt::Gen& g)
{
  typedef GlobalLoop::Elliptic<Topology::File<d, D>, Geometry::File<d, D>, NodeDescriptor::File<d, D>, Solver<d, p>> G;
  const auto pt = gen_patch<d, D>(g);
  const MPoly u = gen_poly(g, D, p);
  pose<D>(g, u, pt.proj);
  const double tau = g.positive(0.3, 3.);
  g.desc << "patch " << d << " in " << D << " p=" << p << " tau=" << tau << " hyperedges=" << pt.m.nodes.size();
  g.publish_desc();
  g.nontrivial(pt.m.nodes.size() > 1 && p > 0);
  G loop(to_file(g, pt.m), PIPE == 4 ? tau + 20. : tau);
  steady<G, d>(g, loop);
}
#if PIPE <= 2
/// Networks of lines: the exact solution is found from the node equations.
template <unsigned D, unsigned p>
void network(pbt::Gen& g)
{
  typedef GlobalLoop::Elliptic<Topology::File<1, D>, Geometry::File<1, D>, NodeDescriptor::File<1, D>, Solver<1, p>> G;
  std::vector<char> fixed;
  const dom::Model m = gen_network<D>(g, fixed);
  const double kinv = g.positive(0.4, 3.), f = p > 1 ? g.signed_small(8) / 2. : 0., tau = g.positive(0.3, 3.);
  set(loc::KINV, kinv);
  set(loc::KAPPA, 1. / kinv);
  set(loc::RHS, f);
  const MPoly bc = gen_poly(g, D, 2);
  set(loc::DIR, bc);
  g.desc << "network in " << D << " p=" << p << " tau=" << tau << " lines=" << m.nodes.size() << " nodes=" << m.n_nodes << " source=" << f;
  g.publish_desc();
  std::vector<unsigned> deg(m.n_nodes, 0);
  for (const auto& e : m.nodes)
    ++deg[e[0]], ++deg[e[1]];
  unsigned branch = 0;
  for (unsigned i = 0; i < m.n_nodes; ++i)
    branch += !fixed[i] && deg[i] > 2;
  g.nontrivial(branch > 0);
  const unsigned n = (unsigned)m.n_nodes;
  Vec len;
  for (const auto& q : m.pts)
  {
    double s = 0;
    for (unsigned k = 0; k < D; ++k)
      s += std::pow(m.points[q[0]][k] - m.points[q[1]][k], 2);
    len.push_back(std::sqrt(s));
  }
  std::vector<unsigned> point(n, 0);
  for (size_t e = 0; e < m.nodes.size(); ++e)
    for (unsigned k = 0; k < 2; ++k)
      point[m.nodes[e][k]] = (unsigned)m.pts[e][k];
  auto values = [&](double t) {
    // same elimination, different system
    Vec b(n, 0.);
    auto A = [&](const Vec& v) {
      Vec r(n, 0.);
      for (size_t e = 0; e < m.nodes.size(); ++e)
      {
        const unsigned i = m.nodes[e][0], j = m.nodes[e][1];
        r[i] += (v[i] - v[j]) / (kinv * len[e]);
        r[j] += (v[j] - v[i]) / (kinv * len[e]);
      }
      for (unsigned i = 0; i < n; ++i)
        if (fixed[i])
          r[i] = v[i];
      return r;
    };
    for (size_t e = 0; e < m.nodes.size(); ++e)
      for (unsigned k = 0; k < 2; ++k)
        b[m.nodes[e][k]] -= f * len[e] / 2;
    for (unsigned i = 0; i < n; ++i)
      if (fixed[i])
        b[i] = -bc(m.points[point[i]], t);
    return solve(A, b);
  };
  fun(loc::ANA) = loc::Fun();
  std::map<double, Vec> cache;
  fun(loc::ANA).other = [&](const Vec& x, double t) {
    if (!cache.count(t))
      cache[t] = values(t);
    const Vec& v = cache[t];
    double best = 1e9, val = 0;
    for (size_t e = 0; e < m.pts.size(); ++e)
    {
      const Vec &a = m.points[m.pts[e][0]], &b = m.points[m.pts[e][1]];
      double s = 0, dist = 0;
      for (unsigned k = 0; k < D; ++k)
        s += (x[k] - a[k]) * (b[k] - a[k]) / (len[e] * len[e]);
      for (unsigned k = 0; k < D; ++k)
        dist += std::pow(a[k] + s * (b[k] - a[k]) - x[k], 2);
      if (s < -1e-9 || s > 1 + 1e-9)
        continue;
      if (dist < best)
        best = dist, val = (1 - s) * v[m.nodes[e][0]] + s * v[m.nodes[e][1]] + f * kinv / 2 * s * (1 - s) * len[e] * len[e];
    }
    return val;
  };
  // overlapping lines have no unique value at a point
  for (size_t e = 0; e < m.pts.size(); ++e)
    for (size_t h = 0; h < e; ++h)
    {
      Vec v(D), w(D);
      double vw = 0;
      for (unsigned k = 0; k < D; ++k)
      {
        v[k] = (m.points[m.pts[e][1]][k] - m.points[m.pts[e][0]][k]) / len[e];
        w[k] = (m.points[m.pts[h][1]][k] - m.points[m.pts[h][0]][k]) / len[h];
        vw += v[k] * w[k];
      }
      if (std::abs(vw) > 1 - 1e-4)
        throw pbt::Discard();
    }
  G loop(to_file(g, m), tau);
  steady<G, 1>(g, loop);
  fun(loc::ANA) = loc::Fun();
}
#endif
typedef void (*fn)(pbt::Gen&);
#if PIPE == 5
static const fn cub[] = {cubic<1, 1, 2>, cubic<1, 1, 3>, cubic<2, 2, 1>, cubic<2, 2, 2>};
static const fn pat[] = {patch<1, 1, 3>, patch<1, 3, 2>, patch<2, 2, 1>, patch<2, 2, 2>, patch<2, 3, 2>};
FAMILY("cubic", 240, 4000, "several hyperedges, degree above zero") { cub[g.index(std::size(cub))](g); }
FAMILY("patch", 240, 4000, "several hyperedges, degree above zero") { pat[g.index(std::size(pat))](g); }
#elif PIPE == 4
static const fn cub[] = {cubic<1, 1, 1>, cubic<1, 1, 3>, cubic<2, 2, 1>, cubic<2, 2, 2>};
static const fn pat[] = {patch<1, 1, 3>, patch<1, 3, 2>, patch<2, 2, 1>, patch<2, 2, 2>, patch<2, 3, 2>};
FAMILY("cubic", 300, 6000, "several hyperedges, degree above zero") { cub[g.index(std::size(cub))](g); }
FAMILY("patch", 300, 6000, "several hyperedges, degree above zero") { pat[g.index(std::size(pat))](g); }
#else
static const fn cub[] = {cubic<1, 1, 2>, cubic<1, 2, 1>, cubic<1, 3, 2>, cubic<2, 2, 0>, cubic<2, 2, 1>, cubic<2, 2, 2>, cubic<2, 3, 2>, cubic<3, 3, 1>};
static const fn pat[] = {patch<1, 1, 3>, patch<1, 3, 2>, patch<2, 2, 1>, patch<2, 2, 2>, patch<2, 3, 2>, patch<3, 3, 1>};
FAMILY("cubic", 300, 6000, "several hyperedges, degree above zero") { cub[g.index(std::size(cub))](g); }
FAMILY("patch", 300, 6000, "several hyperedges, degree above zero") { pat[g.index(std::size(pat))](g); }
#if PIPE <= 2
static const fn net[] = {network<2, 1>, network<2, 2>, network<3, 1>, network<3, 3>};
FAMILY("network", 600, 20000, "a branching point that is not prescribed") { net[g.index(std::size(net))](g); }
#endif
#endif

#elif PIPE == 6
template <unsigned p>
void beams(pbt::Gen& g)
{
  typedef GlobalLoop::Elliptic<Topology::File<1, 3>, Geometry::File<1, 3>, NodeDescriptor::File<1, 3>, Solver<1, p>> G;
  std::vector<char> fixed;
  dom::Model m = gen_network<3>(g, fixed);
  // a rigid motion: displacement a + omega x x, rotation -omega
  Vec a(3), om(3);
  for (unsigned k = 0; k < 3; ++k)
    a[k] = g.signed_small(8) / 4., om[k] = g.signed_small(8) / 4.;
  for (auto& f : fv)
    for (auto& q : f)
      q = MPoly();
  const std::vector<unsigned> e0(3, 0);
  for (unsigned k = 0; k < 3; ++k)
  {
    const unsigned i = (k + 1) % 3, j = (k + 2) % 3;
    std::vector<unsigned> ei(3, 0), ej(3, 0);
    ei[i] = ej[j] = 1;
    fv[AU][k].m = {{a[k], 0., e0}, {om[i], 0., ej}, {-om[j], 0., ei}};
    fv[DU][k] = fv[AU][k];
    fv[AP][k].m = {{-om[k], 0., e0}};
    fv[DP][k] = fv[AP][k];
  }
  const double tau = g.positive(0.3, 3.);
  const bool stiff = g.chance(1, 3);
  g.desc << "beams p=" << p << " tau=" << tau << " lines=" << m.nodes.size() << " nodes=" << m.n_nodes << (stiff ? " with properties" : "");
  g.publish_desc();
  unsigned free_nodes = 0;
  for (char c : fixed)
    free_nodes += !c;
  g.nontrivial(free_nodes > 0 && m.nodes.size() > 1 && (om[0] != 0 || om[1] != 0 || om[2] != 0));
  if (stiff)
  {
    m.has_props = true;
    m.n_props = 12;
    for (const auto& q : m.pts)
    {
      Vec v(3), n1(3), n2(3);
      for (unsigned k = 0; k < 3; ++k)
        v[k] = m.points[q[1]][k] - m.points[q[0]][k];
      const unsigned s = std::abs(v[0]) < std::abs(v[1]) ? 0 : 1;
      Vec h(3, 0.);
      h[s] = 1;
      auto cr = [](const Vec& x, const Vec& y) { return Vec{x[1] * y[2] - x[2] * y[1], x[2] * y[0] - x[0] * y[2], x[0] * y[1] - x[1] * y[0]}; };
      auto unit = [](Vec x) {
        const double l = std::sqrt(x[0] * x[0] + x[1] * x[1] + x[2] * x[2]);
        for (double& y : x)
          y /= l;
        return x;
      };
      n1 = unit(cr(v, h));
      n2 = unit(cr(v, n1));
      // generic in-plane angle: both shear and bending stiffnesses stay away from zero for equal coefficients
      Vec pr;
      const double c1 = g.positive(0.5, 2.) * 1e-4, c2 = g.positive(0.5, 2.) * 1e-12;
      pr = {c1, c1, c1 * 0.3, c2, c2, c2 * 0.3, n1[0], n1[1], n1[2], n2[0], n2[1], n2[2]};
      m.props.push_back(pr);
    }
  }
  G loop(to_file(g, m), tau);
  const unsigned r = g.chance(1, 2) ? 1 : gen_refinement(g, 1);
  loop.set_refinement(r);
  g.desc << " refinement " << r;
  g.publish_desc();
  if (loop.size_of_system() > 160)
    throw pbt::Discard();
  const Vec x = solve([&](const Vec& v) { return loop.trace_to_flux(v); }, loop.residual_flux(loop.zero_vector()));
  double sc = 1;
  for (double v : x)
    sc = std::max(sc, std::abs(v));
  CHECK_CLOSE(norm(loop.errors(x)), 0., 1e-6, 10 * sc, "a rigid motion is prescribed, but the displacement differs from it");
}
typedef void (*fn)(pbt::Gen&);
static const fn bm[] = {beams<1>, beams<2>, beams<3>};
FAMILY("beams", 400, 8000, "several beams, a free node, a rotation") { bm[g.index(3)](g); }

#elif PIPE >= 10
#include "pipeline_eigen.hxx"
#else
/// Problems in time with solutions that are affine in time.
template <typename G>
void march(pbt::Gen& g, G& loop, double t, double dt)
{
  Vec x = loop.make_initial(loop.zero_vector(), t);
  double sc = 1;
  for (double v : x)
    sc = std::max(sc, std::abs(v));
#if PIPE != 8  // errors() of that solver speaks of the next step
  CHECK_CLOSE(norm(loop.errors(x, t)), 0., 1e-7, 10 * sc, "initial error");
#endif
  const unsigned steps = 1 + (unsigned)g.index(3);
  for (unsigned k = 0; k < steps; ++k)
  {
    t += dt;
    x = solve([&](const Vec& v) { return loop.trace_to_flux(v, t); }, loop.residual_flux(loop.zero_vector(), t));
    for (double v : x)
      sc = std::max(sc, std::abs(v));
#if PIPE == 8
    CHECK_CLOSE(norm(loop.errors(x, t)), 0., 1e-6, 10 * sc, "error of step " << k + 1 << ", but the solution lies in the discrete space");
    loop.set_data(x, t);
#else
    loop.set_data(x, t);
    CHECK_CLOSE(norm(loop.errors(x, t)), 0., 1e-6, 10 * sc, "error after step " << k + 1 << ", but the solution lies in the discrete space");
#endif
  }
}
template <unsigned D>
void pose(pbt::Gen& g, const MPoly& u, const Mat& P, const Vec* normals, unsigned nf)
{
  set(loc::ANA, u);
  set(loc::DIR, u);
  set(loc::INI, u);
#if PIPE == 7
  const double kinv = g.positive(0.4, 3.);
  set(loc::KINV, kinv);
  set(loc::RHS, u.dt() + laplace(u, P) * (-1. / kinv));
#elif PIPE == 8
  const double kinv = g.positive(0.4, 3.);
  set(loc::KINV, kinv);
  const MPoly w = laplace(u, P) * (-1. / kinv);
  set(loc::DIRL, w);
  set(loc::INIL, w);
  set(loc::RHS, u.dt() + laplace(w, P) * -1.);
#else
  MPoly f = u.dt();
  Vec b(D), pb(D, 0.);
  for (unsigned i = 0; i < D; ++i)
  {
    b[i] = g.signed_small(8) / 4. + 0.13;
    set(loc::VEL0 + i, b[i]);
  }
  for (unsigned i = 0; i < D; ++i)
    for (unsigned j = 0; j < D; ++j)
      pb[i] += P[i][j] * b[j];
  for (unsigned i = 0; i < D; ++i)
    f = f + u.d(i) * pb[i];
  for (unsigned k = 0; k < nf; ++k)
  {
    double s = 0;
    for (unsigned i = 0; i < D; ++i)
      s += normals[k][i] * b[i];
    if (std::abs(s) < 0.02)
      throw pbt::Discard();
  }
  set(loc::RHS, f);
#endif
}
std::vector<double> gen_scheme(pbt::Gen& g, double& dt)
{
  const double tau = g.positive(0.3, 3.);
  double th = g.chance(1, 2) ? 1. : g.positive(0.5, 1.);
  if (PIPE == 8)
    th = 1.;
  dt = g.positive(0.05, 0.5);
  g.desc << " tau=" << tau << " theta=" << th << " time step=" << dt;
  g.publish_desc();
  return {tau, th, dt};
}
template <unsigned d, unsigned p>
void cubic(pbt::Gen& g)
{
  constexpr unsigned D = d;
  typedef GlobalLoop::Parabolic<Topology::Cubic<d, D>, Geometry::UnitCube<d, D>, NodeDescriptor::Cubic<d, D>, Solver<d, p>> G;
  SmallVec<D, unsigned int> n;
  unsigned total = 1;
  for (unsigned k = 0; k < D; ++k)
    total *= n[k] = 1 + (unsigned)g.index(D == 1 ? 6 : D == 2 ? 3 : 2);
  const MPoly u = gen_poly(g, D, p);
  Mat P(D, Vec(D, 0.));
  std::vector<Vec> nv;
  for (unsigned i = 0; i < D; ++i)
  {
    P[i][i] = 1;
    nv.push_back(P[i]);
  }
  pose<D>(g, u, P, nv.data(), D);
  double dt, t = (double)g.raw(4) / 4.;
  g.desc << "cubic " << d << " p=" << p << " hyperedges=" << total;
  const auto sch = gen_scheme(g, dt);
  g.nontrivial(total > 1 && p > 0);
  G loop(n, sch);
  if (g.chance(1, 2))
    loop.set_refinement(gen_refinement(g, d));
  march(g, loop, t, dt);
}
template <unsigned d, unsigned D, unsigned p>
void patch(pbt::Gen& g)
{
  typedef GlobalLoop::Parabolic<Topology::File<d, D>, Geometry::File<d, D>, NodeDescriptor::File<d, D>, Solver<d, p>> G;
  const auto pt = gen_patch<d, D>(g);
  const MPoly u = gen_poly(g, D, p);
  pose<D>(g, u, pt.proj, pt.normal, 2 * d);
  double dt, t = (double)g.raw(4) / 4.;
  g.desc << "patch " << d << " in " << D << " p=" << p << " hyperedges=" << pt.m.nodes.size();
  const auto sch = gen_scheme(g, dt);
  g.nontrivial(pt.m.nodes.size() > 1 && p > 0);
  G loop(to_file(g, pt.m), sch);
  if (g.chance(1, 2))
    loop.set_refinement(gen_refinement(g, d));
  march(g, loop, t, dt);
}
typedef void (*fn)(pbt::Gen&);
static const fn cub[] = {cubic<1, 2>, cubic<1, 3>, cubic<2, 1>, cubic<2, 2>};
static const fn pat[] = {patch<1, 1, 3>, patch<1, 3, 2>, patch<2, 2, 1>, patch<2, 2, 2>, patch<2, 3, 2>};
FAMILY("cubic_in_time", 200, 4000, "several hyperedges, degree above zero") { cub[g.index(std::size(cub))](g); }
FAMILY("patch_in_time", 200, 4000, "several hyperedges, degree above zero") { pat[g.index(std::size(pat))](g); }
#endif
}  // namespace
