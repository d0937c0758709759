// P25: the beam network solver, compared to an own discretisation in global coordinates (without
// any frame of the cross section), and its invariance under rigid motions.
#include "local_own.hxx"
#include <HyperHDG/local_solver/timoshenko_network.hxx>
namespace
{
enum
{
  FN,
  FM,
  DU,
  DP,
  AU,
  AP,
  N_VEC
};
loc::Fun fv[N_VEC][3];
double component(unsigned k, const loc::Vec& x, const loc::Vec& n, double t)
{
  double r = 0;
  for (unsigned i = 0; i < 3; ++i)
    r += fv[k][i](x, t) * n[i];
  return r;
}
#define BEAM_FUN(NAME, K)                                                               \
  static F NAME(const Point<D, F>& p, const Point<D, F>& n, const F t = 0.)             \
  {                                                                                     \
    return (F)component(K, loc::Vec{p[0], p[1], p[2]}, loc::Vec{n[0], n[1], n[2]}, t);  \
  }
template <unsigned int D, typename F = double>
struct Par
{
  static constexpr std::array<unsigned int, 2U> dirichlet_nodes{1, 3};
  static constexpr std::array<unsigned int, 1U> neumann_nodes{2};
  BEAM_FUN(right_hand_side_n, FN)
  BEAM_FUN(right_hand_side_m, FM)
  BEAM_FUN(dirichlet_value_u, DU)
  BEAM_FUN(dirichlet_value_phi, DP)
  BEAM_FUN(analytic_result_u, AU)
  BEAM_FUN(analytic_result_phi, AP)
};
struct BeamGeom : loc::Geom<1, 3>
{
  std::vector<double> extra;
  bool has_extra_data() const { return !extra.empty(); }
  const std::vector<double>& extra_data() const { return extra; }
};
template <typename Data>
struct BeamEdge
{
  BeamGeom geometry;
  std::array<unsigned int, 2> node_descriptor;
  Data data;
};
loc::Vec cross(const loc::Vec& a, const loc::Vec& b) { return {a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]}; }
}  // namespace
using namespace loc;
template <unsigned p>
static void run(pbt::Gen& g)
{
  typedef LocalSolver::TimoshenkoBeam<1, 3, p, 2 * p + 4, Par, double> S;
  constexpr unsigned n1 = p + 1, N = n1;
  typedef std::array<std::array<double, 6>, 2> L;
  static_assert(S::n_glob_dofs_per_node() == 6 && S::system_dimension() == 3 && S::node_system_dimension() == 3 && S::hyEdge_dim() == 1);
  BeamEdge<typename S::data_type> e;
  static_cast<Geom<1, 3>&>(e.geometry) = gen_geom<1, 3>(g);
  for (auto& y : e.node_descriptor)
    y = g.chance(1, 2) ? 0 : (unsigned)g.index(4);
  for (auto& k : fv)
    for (auto& f : k)
      f = gen_fun(g, 3);
  const auto& geo = e.geometry;
  const auto& ty = e.node_descriptor;
  const Vec ax{geo.Q(0, 0), geo.Q(1, 0), geo.Q(2, 0)};
  // stiffnesses
  double cn[3] = {1, 1, 1}, cm[3] = {1, 1, 1};
  const bool stiff = g.chance(1, 2);
  unsigned perm = 0;
  if (stiff)
  {
    perm = (unsigned)g.index(2);
    const double s1 = g.chance(1, 2) ? 1 : -1, s2 = g.chance(1, 2) ? 1 : -1;
    for (double& c : cn)
      c = g.positive(0.3, 3.);
    for (double& c : cm)
      c = g.positive(0.3, 3.);
    for (double c : cn)
      e.geometry.extra.push_back(c * 1e-4);
    for (double c : cm)
      e.geometry.extra.push_back(c * 1e-12);
    // axes of the cross section: those of the frame, or turned by some angle
    const double al = g.chance(1, 3) ? g.raw(63) / 10. : 0., co = std::cos(al), si = std::sin(al);
    for (unsigned i = 0; i < 3; ++i)
      e.geometry.extra.push_back(s1 * (co * geo.Q(i, perm ? 2 : 1) + si * geo.Q(i, perm ? 1 : 2)));
    for (unsigned i = 0; i < 3; ++i)
      e.geometry.extra.push_back(s2 * (co * geo.Q(i, perm ? 1 : 2) - si * geo.Q(i, perm ? 2 : 1)));
    if (al != 0)
    {
      // the stiffness along an axis of the frame collects those of both axes by the cosines between them
      for (double* c : {cn, cm})
      {
        const double a = std::abs(s1 * co * c[1] - s2 * si * c[2]), b = std::abs(s1 * si * c[1] + s2 * co * c[2]);
        c[1] = a;
        c[2] = b;
        if (a < 0.1 || b < 0.1)
          throw pbt::Discard();
      }
    }
  }
  const double tau = gen_tau(g), t = gen_time(g);
  const S s(tau);
  error_definition<S>(g);
  if (g.chance(1, 3))  // another beam of the same length, penalty and time comes first
  {
    BeamEdge<typename S::data_type> o(e);
    const unsigned kind = 1 + (unsigned)g.index(3);
    if (kind & 1)
      for (unsigned i = 0; i < 3; ++i)
      {
        const double v = o.geometry.Q(i, 0);
        o.geometry.Q(i, 0) = o.geometry.Q(i, 1);
        o.geometry.Q(i, 1) = -v;
      }
    if (kind & 2)
    {
      if (stiff)
        for (unsigned i = 0; i < 6; ++i)
          o.geometry.extra[i] *= 1.5;
      o.node_descriptor = {1, 0};
    }
    L r{}, l = gen_lambda<2, 6>(g);
    s.trace_to_flux(l, r, o, t);
    s.residual_flux(l, r, o, t);
    s.errors(l, o, t);
  }
  const Tab<1, 3, n1> tab(geo);
  L lam = gen_lambda<2, 6>(g);
  const bool rigid = p > 0 && g.chance(1, 4);
  Vec om(3);
  if (rigid)
  {
    Vec a(3);
    for (unsigned i = 0; i < 3; ++i)
      a[i] = g.signed_small(16) / 4., om[i] = g.signed_small(16) / 4.;
    for (unsigned f = 0; f < 2; ++f)
    {
      const Vec w = cross(om, geo.phys(Vec{(double)f}));
      for (unsigned i = 0; i < 3; ++i)
        lam[f][i] = a[i] + w[i], lam[f][3 + i] = -om[i];
    }
    for (auto& y : e.node_descriptor)
      y = 0;
  }
  unsigned n_dir = 0;
  for (unsigned f = 0; f < 2; ++f)
    if (dirichlet(ty[f]))
      lam[f].fill(0.), ++n_dir;
  g.desc << "p=" << p << " tau=" << tau << " time=" << t << " dirichlet=" << n_dir << (stiff ? " stiffness" : "") << (rigid ? " rigid motion" : "") << " axis=(" << ax[0] << "," << ax[1] << "," << ax[2] << ")";
  g.publish_desc();
  g.nontrivial(n_dir < 2 && max_abs(lam) > 0 && std::abs(ax[0]) < 0.99);
  // own discretisation: n, m, u, phi in global coordinates
  Own<1, 3, n1> base(tab, 12);
  auto inv = [&](const double* c, unsigned k, unsigned l) {
    double r = 0;
    for (unsigned q = 0; q < 3; ++q)
    {
      const unsigned col = q == 0 ? 0 : perm ? 3 - q : q;
      r += geo.Q(k, col) * geo.Q(l, col) / c[q];
    }
    return r;
  };
  auto unit = [](unsigned l) {
    Vec r(3, 0.);
    r[l] = 1;
    return r;
  };
  for (const auto& P : tab.vol)
    for (unsigned i = 0; i < N; ++i)
      for (unsigned j = 0; j < N; ++j)
      {
        const double m = P.w * P.phi[i] * P.phi[j], gr = P.w * P.dphi[i][0] * P.phi[j];
        for (unsigned k = 0; k < 3; ++k)
        {
          for (unsigned l = 0; l < 3; ++l)
          {
            const double ex = cross(ax, unit(l))[k];
            base.A[k * N + i][l * N + j] += m * inv(cn, k, l);
            base.A[(3 + k) * N + i][(3 + l) * N + j] += m * inv(cm, k, l);
            base.A[k * N + i][(9 + l) * N + j] -= m * ex;
            base.A[(9 + k) * N + i][l * N + j] -= m * ex;
          }
          for (unsigned c = 0; c < 2; ++c)
          {
            base.A[(3 * c + k) * N + i][(6 + 3 * c + k) * N + j] -= gr;
            base.A[(6 + 3 * c + k) * N + i][(3 * c + k) * N + j] -= gr;
          }
        }
      }
  for (unsigned f = 0; f < 2; ++f)
    for (const auto& P : tab.face[f])
      for (unsigned i = 0; i < N; ++i)
        for (unsigned j = 0; j < N; ++j)
          for (unsigned c = 0; c < 6; ++c)
          {
            base.A[(6 + c) * N + i][c * N + j] += P.w * tab.nrm[f][0] * P.phi[i] * P.phi[j];
            base.A[(6 + c) * N + i][(6 + c) * N + j] += P.w * tau * P.phi[i] * P.phi[j];
          }
  auto add_trace = [&](Own<1, 3, n1>& o, unsigned f, unsigned c, double v) {
    for (const auto& P : tab.face[f])
      for (unsigned i = 0; i < N; ++i)
      {
        o.b[c * N + i] -= P.w * v * tab.nrm[f][0] * P.phi[i];
        o.b[(6 + c) * N + i] += P.w * tau * v * P.phi[i];
      }
  };
  Own<1, 3, n1> hom = base;
  for (unsigned f = 0; f < 2; ++f)
    for (unsigned c = 0; c < 6; ++c)
      add_trace(hom, f, c, lam[f][c]);
  Own<1, 3, n1> full = hom;
  for (unsigned k = 0; k < 3; ++k)
  {
    full.rhs((6 + k) * N, [&](const Vec& x) { return fv[FN][k](x, t); });
    full.rhs((9 + k) * N, [&](const Vec& x) { return fv[FM][k](x, t); });
    for (unsigned f = 0; f < 2; ++f)
      if (dirichlet(ty[f]))
      {
        add_trace(full, f, k, fv[DU][k](geo.phys(Vec{(double)f}), t));
        add_trace(full, f, 3 + k, fv[DP][k](geo.phys(Vec{(double)f}), t));
      }
  }
  const Vec xh = hom.solve(), xf = full.solve();
  const double sc = 1 + 10 * vmax(xh) + 10 * vmax(xf) + max_abs(lam) * tau;
  auto flux = [&](const Vec& x) {
    L r;
    for (unsigned f = 0; f < 2; ++f)
      for (unsigned c = 0; c < 6; ++c)
      {
        const auto& P = tab.face[f][0];
        r[f][c] = 0;
        if (!dirichlet(ty[f]))
          r[f][c] = lin(Vec(x.begin() + c * N, x.begin() + (c + 1) * N), P.phi) * tab.nrm[f][0] + tau * (lin(Vec(x.begin() + (6 + c) * N, x.begin() + (7 + c) * N), P.phi) - lam[f][c]);
      }
    return r;
  };
  L a{}, b{};
  CHECK(&s.trace_to_flux(lam, a, e, t) == &a, "the result is not the output argument");
  check_same(a, flux(xh), sc, "flux");
  CHECK(&s.residual_flux(lam, b, e, t) == &b, "the result is not the output argument");
  check_same(b, flux(xf), sc, "residual flux");
  if (rigid)
    check_same(a, L{}, sc, "forces and moments of a rigid motion");
  const std::vector<Vec> v = bulk<1, n1>(s, lam, e, t);
  for (unsigned k = 0; k < 3; ++k)
    check_coeff(v[k], full.part(xf, (6 + k) * N), sc, "displacement");
  const auto ab2 = abscissas<n1 + 1>();
  check_resample<1, n1 + 1>(g, v, n1, ab2, s.bulk_values(ab2, lam, e, t), "displacement at other abscissas");
  double er = 0;
  for (const auto& P : tab.vol)
    for (unsigned k = 0; k < 3; ++k)
    {
      const double df = lin(full.part(xf, (6 + k) * N), P.phi) - fv[AU][k](P.x, t);
      er += P.w * df * df;
    }
  CHECK_CLOSE(s.errors(lam, e, t)[0], er, TOL, 1 + er + sc * sc, "squared error of the displacement");
}
typedef void (*fn)(pbt::Gen&);
static const fn all[] = {run<1>, run<0>, run<2>, run<3>, run<5>};
FAMILY("TimoshenkoBeam", 8000, 200000, "non-zero trace, at least one end that is not Dirichlet, beam not aligned with the first axis") { all[g.index(5)](g); }
