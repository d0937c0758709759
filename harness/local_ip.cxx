// P21: DiffusionIP (hybridised interior penalty).
#include "local_ldg.hxx"
#include <HyperHDG/local_solver/diffusion_ip.hxx>
namespace { LOC_PARAMS(Par) }
using namespace loc;
template <unsigned d, unsigned D, unsigned p>
static void run(pbt::Gen& g)
{
  typedef LocalSolver::DiffusionIP<d, p, 2 * p + 4, Par, double> S;
  constexpr unsigned n1 = p + 1, NB = Hypercube<d - 1>::pow(n1), NF = 2 * d, N = Hypercube<d>::pow(n1);
  typedef std::array<std::array<double, NB>, NF> L;
  static_assert(S::n_glob_dofs_per_node() == NB && S::system_dimension() == 1 && S::node_system_dimension() == 1 && S::hyEdge_dim() == d);
  Edge<d, D, typename S::data_type> e;
  gen_edge(g, e, e.geometry);
  gen_data(g, D);
  const double tau = gen_tau(g), t = gen_time(g);
  L lam = gen_lambda<NF, NB>(g);
  zero_dirichlet<NF, NB>(lam, e.node_descriptor);
  const S s(tau);
  error_definition<S>(g);
  decoy(g, e, [&](auto& o) {
    L r = lam;
    s.residual_flux(lam, r, o, t);
    s.trace_to_flux(lam, r, o, t);
    s.errors(lam, o, t);
  });
  const Tab<d, D, n1> tab(e.geometry);
  g.desc << "d=" << d << " D=" << D << " p=" << p << " tau=" << tau << " time=" << t;
  g.publish_desc();
  g.nontrivial(max_abs(lam) > 0 && !fun(RHS).c.empty());
  const std::vector<Vec> b = bulk<d, n1>(s, lam, e, t);
  const Vec& u = b[0];
  auto grad = [&](const Vec& c, const auto& P, unsigned k) {
    double v = 0;
    for (unsigned i = 0; i < N; ++i)
      v += c[i] * P.dphi[i][k];
    return v;
  };
  std::vector<Acc> r(N);
  for (const auto& P : tab.vol)
    for (unsigned i = 0; i < N; ++i)
    {
      for (unsigned k = 0; k < d; ++k)
        r[i].add(P.w * fun(KAPPA)(P.x, t) * grad(u, P, k) * P.dphi[i][k]);
      r[i].add(-P.w * fun(RHS)(P.x, t) * P.phi[i]);
    }
  auto flux_at = [&](const Vec& c, unsigned f, const auto& P) {
    double v = 0;
    for (unsigned k = 0; k < d; ++k)
      v -= fun(KAPPA)(P.x, t) * grad(c, P, k) * tab.nrm[f][k];
    return v;
  };
  for (unsigned f = 0; f < NF; ++f)
    for (const auto& P : tab.face[f])
    {
      const double tr = trace(lam, f, P) + (dirichlet(e.node_descriptor[f]) ? fun(DIR)(P.x, t) : 0.), uv = lin(u, P.phi), qn = flux_at(u, f, P);
      for (unsigned i = 0; i < N; ++i)
      {
        r[i].add(P.w * qn * P.phi[i]);
        r[i].add(P.w * tau * uv * P.phi[i]);
        r[i].add(-P.w * tau * tr * P.phi[i]);
      }
    }
  double scale = 1;
  for (const Acc& a : r)
    scale = std::max(scale, a.m);
  for (unsigned i = 0; i < N; ++i)
    CHECK_CLOSE(r[i].s, 0., TOL, scale, "weak form, test function " << i);
  const auto ab2 = abscissas<n1 + 1>();
  check_resample<d, n1 + 1>(g, b, n1, ab2, s.bulk_values(ab2, lam, e, t), "bulk values at other abscissas");
  auto want = [&](const Vec& c) {
    L w = lam;
    for (unsigned f = 0; f < NF; ++f)
    {
      w[f].fill(0.);
      if (!dirichlet(e.node_descriptor[f]))
        for (const auto& P : tab.face[f])
          for (unsigned j = 0; j < NB; ++j)
            w[f][j] += P.w * P.psi[j] * (flux_at(c, f, P) + tau * (lin(c, P.phi) - trace(lam, f, P)));
    }
    return w;
  };
  const L zero{};
  L res = garbage(lam), res0 = garbage(lam), flux = garbage(lam);
  CHECK(&s.residual_flux(lam, res, e, t) == &res, "the result is not the output argument");
  s.residual_flux(zero, res0, e, t);
  CHECK(&s.trace_to_flux(lam, flux, e, t) == &flux, "the result is not the output argument");
  const double sc = 1 + 30 * max_abs(res) + 30 * max_abs(b) + max_abs(lam) * tau;
  check_same(res, want(u), sc, "residual flux");
  check_same(minus(res, res0), flux, sc + 10 * max_abs(res0), "residual(lambda) - residual(0) against the homogeneous flux");
  {
    Saved off;
    const std::vector<Vec> h = bulk<d, n1>(s, lam, e, t);
    check_same(flux, want(h[0]), sc + 30 * max_abs(h), "homogeneous flux");
  }
  const auto types = s.node_types(e);
  for (unsigned f = 0; f < NF; ++f)
    CHECK(types[f] == (dirichlet(e.node_descriptor[f]) ? 1u : 0u), "node type of face " << f << " is " << types[f]);
  const double er = s.errors(lam, e, t)[0], w = l2_diff2<d, D, n1>(tab, u, t);
  CHECK_CLOSE(er, w, TOL, 1 + w, "squared error");
}
typedef void (*fn)(pbt::Gen&);
static const fn lo[] = {run<1, 1, 1>, run<1, 2, 2>, run<1, 3, 0>, run<1, 3, 3>, run<2, 2, 0>, run<2, 2, 1>, run<2, 3, 1>, run<2, 2, 2>, run<3, 3, 1>};
FAMILY("DiffusionIP", 1000, 30000, "non-zero trace and right-hand side present") { lo[g.index(9)](g); }
